//! C04: render lexers from the template, compile them, drive the compiled code and compare with a reference tokenizer.
use crate::ebnf::*;
use crate::engine::*;
use crate::lexmodel::line_col;
use crate::rx::{self, Rx};
use serde_json::{json, Value};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::SymbolVisitor;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor, StringLiteralVisitor};
use tera::{Context, Tera};

pub fn render(data: &Vec<LexerRuleData>, name: &str) -> Result<String, String> {
  imp("rendering the lexer template", || {
    let mut tera = Tera::new("src/tool/templates/target/rust/*.tera").map_err(|e| format!("the template directory does not load: {}", e))?;
    tera.autoescape_on(vec![]);
    let mut c = Context::new();
    c.insert("tokens", data);
    c.insert("name", name);
    tera.render("lexer.tera", &c).map_err(|e| format!("the template does not render: {}", e))
  })?
}

/// library files the generated code links with, as reported by cargo for this build
fn externs() -> Result<(String, Vec<String>), String> {
  let f = std::env::var("VP_ARTIFACTS").unwrap_or_else(|_| "/verif/target/artifacts.json".into());
  let t = std::fs::read_to_string(&f).map_err(|e| format!("HARNESS:{}: {}", f, e))?;
  let mut out = vec![];
  let mut deps = String::new();
  for want in ["syntaxis", "regex", "serde_json"] {
    let mut hit = None;
    for l in t.lines() {
      let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
      if v["reason"] != "compiler-artifact" || v["target"]["name"] != want { continue }
      if !v["target"]["kind"].as_array().map(|a| a.iter().any(|k| k == "lib")).unwrap_or(false) { continue }
      for p in v["filenames"].as_array().into_iter().flatten() { if let Some(p) = p.as_str() { if p.ends_with(".rlib") { hit = Some(p.to_string()) } } }
    }
    let p = hit.ok_or(format!("HARNESS:no rlib for {} in {}", want, f))?;
    // rlibs are uplifted from deps/; the directory to search is the one holding the others
    let d = std::path::Path::new(&p).parent().unwrap();
    let d = if d.ends_with("deps") { d.to_path_buf() } else { d.join("deps") };
    deps = d.to_string_lossy().into_owned();
    out.push(format!("{}={}", want, p));
  }
  Ok((deps, out))
}

fn limited(cmd: &mut Command, cpu: u64) {
  unsafe { cmd.pre_exec(move || {
    let r = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY }; libc::setrlimit(libc::RLIMIT_AS, &r);
    let r = libc::rlimit { rlim_cur: cpu, rlim_max: cpu }; libc::setrlimit(libc::RLIMIT_CPU, &r);
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    Ok(())
  }); }
}

#[derive(Clone)]
pub struct Unit { pub name: String, pub data: Vec<(usize, String)>, pub src: String, pub inputs: Vec<String> }

fn main_src(units: &[Unit]) -> String {
  let mut o = String::from("#![allow(warnings)]\nuse syntaxis::runtime::{lexer::Lexer, token::Token};\nuse serde_json::{json, Value};\n");
  for i in 0..units.len() { o.push_str(&format!("mod m{};\n", i)); }
  o.push_str(r#"
fn tok(t: &Token) -> Value { json!([t.token_type, t.token_name, t.text, t.channel, t.token_index, t.char_start_index, t.char_stop_index, t.start.line, t.start.char_position, t.stop.line, t.stop.char_position]) }
fn drive<L: Lexer>(mut mk: impl FnMut() -> L, n: usize) -> Value {
  let mut l = mk();
  let mut scans = vec![];
  let mut errs = 0;
  for _ in 0..2 * n + 12 { match l.scan() { Ok(t) => { if errs > 0 { scans.push(json!("token after error")); } scans.push(tok(&t)) }, Err(_) => { errs += 1; if errs >= 3 { break } } } }
  let ended = errs >= 3;
  let a: Vec<Value> = mk().scan_all_on_channel_tokens(0).iter().map(tok).collect();
  let b: Vec<Value> = mk().scan_all_on_channel_tokens(1).iter().map(tok).collect();
  json!({ "scans": scans, "ended": ended, "all": a, "other": b })
}
fn main() {
  let inp: Value = serde_json::from_str(&std::fs::read_to_string("in.json").unwrap()).unwrap();
  let mut out: Vec<Value> = vec![];
"#);
  for (i, u) in units.iter().enumerate() {
    let consts: Vec<String> = u.data.iter().map(|(_, n)| format!("m{}::{}Lexer::{}", i, u.name, n)).collect();
    o.push_str(&format!("  {{\n    let c: Vec<usize> = vec![{}];\n    let s: Vec<usize> = vec![m{i}::{n}Lexer::_START, m{i}::{n}Lexer::_STOP];\n    let mut r: Vec<Value> = vec![];\n    for t in inp[{i}].as_array().unwrap() {{ let t = t.as_str().unwrap(); std::fs::write(\"at\", format!(\"{{}} {{}}\", {i}, t)).unwrap(); r.push(drive(|| m{i}::{n}Lexer::new(t), t.len())); }}\n    out.push(json!({{ \"consts\": c, \"special\": s, \"runs\": r }}));\n  }}\n", consts.join(", "), i = i, n = u.name));
  }
  o.push_str("  std::fs::write(\"out.json\", serde_json::to_string(&out).unwrap()).unwrap();\n}\n");
  o
}

/// compile and run; Err describes the violation
pub fn run_units(units: &[Unit]) -> Result<Vec<Value>, String> {
  let (deps, ext) = externs()?;
  let dir = std::path::Path::new("genlex");
  let _ = std::fs::remove_dir_all(dir);
  std::fs::create_dir_all(dir).map_err(|e| format!("HARNESS:{}", e))?;
  let w = |f: String, t: &str| std::fs::write(dir.join(f), t).map_err(|e| format!("HARNESS:{}", e));
  for (i, u) in units.iter().enumerate() { w(format!("m{}.rs", i), &u.src)?; }
  w("main.rs".into(), &main_src(units))?;
  w("in.json".into(), &serde_json::to_string(&units.iter().map(|u| u.inputs.clone()).collect::<Vec<_>>()).unwrap())?;
  let mut cmd = Command::new("rustc");
  cmd.current_dir(dir).args(["--edition", "2021", "-Cdebuginfo=0", "-Copt-level=0", "-Cstrip=symbols", "-Ccodegen-units=1", "-o", "gen", "main.rs", "-L"]).arg(format!("dependency={}", deps));
  for e in &ext { cmd.arg("--extern").arg(e); }
  limited(&mut cmd, 300);
  let o = cmd.stdin(Stdio::null()).output().map_err(|e| format!("HARNESS:rustc: {}", e))?;
  if !o.status.success() {
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let first: String = err.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("-->")).take(4).collect::<Vec<_>>().join(" ");
    // an error located in main.rs that is not about a missing constant would be ours
    let which = (0..units.len()).find(|i| err.contains(&format!("m{}.rs", i)) || err.contains(&format!("m{}::", i)));
    return match which {
      Some(i) => Err(format!("the lexer generated for tokens {:?} does not compile: {}", units[i].data, first)),
      None => if err.contains("main.rs") && err.contains("Lexer") { Err(format!("the generated lexers do not have the promised interface: {}", first)) } else { Err(format!("HARNESS:rustc: {}", err)) },
    };
  }
  let mut cmd = Command::new("./gen");
  cmd.current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
  limited(&mut cmd, 30);
  let o = cmd.output().map_err(|e| format!("HARNESS:gen: {}", e))?;
  let at = std::fs::read_to_string(dir.join("at")).unwrap_or_default();
  if !o.status.success() { return Err(format!("a generated lexer crashes or does not terminate ({}; lexer number and input: {:?}): {}", o.status, at, String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" "))); }
  let t = std::fs::read_to_string(dir.join("out.json")).map_err(|e| format!("HARNESS:{}", e))?;
  serde_json::from_str::<Vec<Value>>(&t).map_err(|e| format!("HARNESS:{}", e))
}


/// reference tokenizer: (scans, consumed everything) or Err when the reference matcher gave up
/// Err: the input is left out, because the reference matcher gave up or the regex crate itself errs on it (see rx::agreed)
fn model(rs: &[(Rx, String)], res: &[regex::Regex], text: &str) -> Result<(Vec<Value>, bool), ()> {
  let cs: Vec<char> = text.chars().collect();
  let mut p = 0; let mut off = 0;
  let mut out = vec![];
  while p < cs.len() {
    let mut best = 0; let mut which = 0;
    for (i, (r, _)) in rs.iter().enumerate() { if let Some(k) = rx::agreed(r, &res[i], &text[off..], &cs[p..])? { if k > best { best = k; which = i } } }
    if best == 0 { return Ok((out, false)); }
    let n = best;
    let (l1, c1) = line_col(text, off); let (l2, c2) = line_col(text, off + n);
    out.push(json!([which + 2, rs[which].1, &text[off..off + n], 0, out.len(), off, off + n, l1, c1, l2, c2]));
    p += text[off..off + n].chars().count(); off += n;
  }
  Ok((out, true))
}

struct Lex { rs: Vec<(Rx, String)>, unit: Unit, has_ws: bool }

pub fn lit_rx(t: &str) -> Rx { Rx::Cat(t.chars().map(Rx::Ch).collect()) }

fn gen_lex(s: &mut Source, k: usize) -> Result<Lex, String> {
  let nt = match s.weighted(&[10, 3, 1]) { 0 => 1 + s.usize_below(6), 1 => s.range(5, 25), _ => 0 };
  let mut names: Vec<String> = vec![];
  for i in 0..nt { let n = if i > 0 && s.chance(1, 5) { let b = s.pick(&names).clone(); crate::lexmodel::near_name(s, &b) } else { crate::lexmodel::word(s, true, 10) }; let n = if n == "Self" || n == "WHITE_SPACE" || n.starts_with("T_") || names.contains(&n) { format!("Tok{}", i) } else { n }; names.push(n) }
  let mut rs: Vec<(Rx, String)> = vec![];
  for n in &names {
    let r = match s.weighted(&[5, 3, 2, 2]) {
      0 => { let d = s.usize_below(3); rx::gen(s, d) },
      1 => { let w = crate::lexmodel::word(s, false, 5); lit_rx(&w) },                       // keywords
      2 => Rx::Cat(vec![Rx::Class(false, vec![('a', 'z'), ('_', '_')]), Rx::Rep(Box::new(Rx::Class(false, vec![('a', 'z'), ('0', '9'), ('_', '_')])), 0, None, true)]), // identifiers
      _ => lit_rx(*s.pick(&["+", "*", "++", "+=", "(", "/", "//", "=", "==", "->", "\"", "\"#", "\"##", "a\"###b", "##", "r#\"", "\\", "\\\"", "'", "\\n", "é", "{", "}}", "{{", "{%", "{#", "&", "<", "//x"])),
    };
    rs.push((r, n.clone()));
  }
  let ws = s.chance(2, 3);
  if ws {
    let r = Rx::Rep(Box::new(Rx::Class(false, vec![(' ', ' '), ('\n', '\n'), ('\t', '\t')])), 1, None, true);
    let at = s.usize_below(rs.len() + 1);
    rs.insert(at, (r, "WHITE_SPACE".into()));
  }
  let mut g = Gram { defs: rs.iter().map(|(r, n)| Def::Token(n.clone(), r.text())).collect() };
  // duplicates of a definition are ignored
  if !g.defs.is_empty() && s.chance(1, 6) { let d = s.usize_below(g.defs.len()); if let Def::Token(n, _) = g.defs[d].clone() { g.defs.push(Def::Token(n, "zzz".into())) } }
  let name = *s.pick(&["Syntaxis", "A", "My_Lang", "X9"]);
  let data: Vec<LexerRuleData> = match s.weighted(&[4, 1, 2]) {
    0 => imp("SymbolVisitor", || { let mut gr = Grammar::new("g"); let mut v = SymbolVisitor::new(&mut gr, 2, 0, vec![]); RuleListContext::accept(&tree_old(&g), &mut v); v.data })?,
    1 => imp("LexerRuleVisitor", || { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree_old(&g), &mut v); v.data })?,
    _ => {
      // string literals first, then token rules
      let mut lits: Vec<(String, String)> = vec![];
      for _ in 0..s.range(1, 4) { let l = super::lit::gen_literal(s); if !lits.iter().any(|(_, d)| *d == l.1) { lits.push(l) } }
      g.defs.push(Def::Rule("rr".into(), vec![Alt::Seq(lits.iter().map(|(l, _)| Elem { atom: Atom::Lit(l.clone()), suf: Suf::None, lazy: false }).collect())]));
      let tree = tree_old(&g);
      let d = imp("collecting tokens", || {
        let mut v = StringLiteralVisitor::new(); RuleListContext::accept(&tree, &mut v);
        let mut l = LexerRuleVisitor::new(v.data, v.next_token_type); RuleListContext::accept(&tree, &mut l);
        l.data
      })?;
      if d.len() != lits.len() + rs.len() { return Err(format!("{} entries collected for {} literals and {} tokens", d.len(), lits.len(), rs.len())); }
      let mut all: Vec<(Rx, String)> = lits.iter().enumerate().map(|(i, (_, x))| (lit_rx(x), d[i].token_name.clone())).collect();
      all.append(&mut rs);
      rs = all;
      d
    },
  };
  if data.len() != rs.len() { return Err(format!("{} entries collected for {} tokens", data.len(), rs.len())); }
  for (i, d) in data.iter().enumerate() { if d.token_type != i + 2 || d.token_name != rs[i].1 { return Err(format!("collected entry {} is {}#{}", i, d.token_name, d.token_type)); } }
  let src = render(&data, name)?;
  let plain: Vec<Rx> = rs.iter().map(|(r, _)| r.clone()).collect();
  let mut inputs = if plain.is_empty() { vec![String::new(), "a".into()] } else { super::lit::rx_inputs(s, &plain, 25) };
  // mostly tokenisable texts: samples glued together with blanks
  if !plain.is_empty() { for _ in 0..10 { let mut t = String::new(); for _ in 0..s.range(1, 8) { rx::sample(s.pick(&plain), s, &mut t); if ws && s.chance(1, 2) { t.push_str(*s.pick(&[" ", "\n", "\n\n ", "\t"])) } } if t.len() < 3000 { inputs.push(t) } } }
  let _ = k;
  Ok(Lex { unit: Unit { name: name.into(), data: data.iter().map(|d| (d.token_type, d.token_name.clone())).collect(), src, inputs }, rs, has_ws: ws })
}

fn check_unit(l: &Lex, v: &Value, c: &mut Ctx) -> Result<(), String> {
  let consts: Vec<usize> = v["consts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
  if consts != l.unit.data.iter().map(|d| d.0).collect::<Vec<_>>() { return Err(format!("token constants are {:?}, assigned were {:?}", consts, l.unit.data)); }
  if v["special"] != json!([0, 1]) { return Err(format!("_START/_STOP constants are {}", v["special"])); }
  let defs = || l.rs.iter().map(|(r, n)| format!("{}: /{}/", n, r.text())).collect::<Vec<_>>().join("; ");
  let res: Vec<regex::Regex> = l.rs.iter().map(|(r, _)| rx::reference(r)).collect::<Result<_, _>>()?;
  for (inp, run) in l.unit.inputs.iter().zip(v["runs"].as_array().unwrap()) {
    let (mut exp, whole) = match model(&l.rs, &res, inp) { Err(()) => { c.label("input left out"); continue }, Ok(x) => x };
    c.evals += 1;
    let n = exp.len();
    let got = run["scans"].as_array().unwrap();
    for i in 0..n { if got.get(i) != Some(&exp[i]) { return Err(format!("lexer of [{}] on {:?}: token {} is {}, expected {}", defs(), inp, i, got.get(i).unwrap_or(&Value::Null), exp[i])); } }
    let mut stop = vec![];
    if whole {
      let t = got.get(n).ok_or(format!("lexer of [{}] on {:?}: no end marker", defs(), inp))?;
      let (l1, c1) = line_col(inp, inp.len());
      // type 1, named _STOP, at the end of the input; the text of the marker is not prescribed
      if t[0] != json!(1) || t[1] != json!("_STOP") || t[3] != json!(0) || t[5] != json!(inp.len()) || t[6] != json!(inp.len()) || t[7] != json!(l1) || t[8] != json!(c1) || t[9] != json!(l1) || t[10] != json!(c1) { return Err(format!("lexer of [{}] on {:?}: end marker {} is not at the end of the input ({} bytes, line {}, column {})", defs(), inp, t, inp.len(), l1, c1)); }
      stop.push(t.clone());
      c.label("input fully tokenised");
    } else { c.label("input stops at an error") }
    if got.len() != n + stop.len() { return Err(format!("lexer of [{}] on {:?}: {} scans succeed, expected {}; extra {}", defs(), inp, got.len(), n + stop.len(), got[n + stop.len()..].first().unwrap())); }
    if run["ended"] != json!(true) { return Err(format!("lexer of [{}] on {:?}: scanning does not end", defs(), inp)); }
    exp.retain(|t| t[1] != json!("WHITE_SPACE"));
    exp.extend(stop);
    if run["all"].as_array() != Some(&exp) { return Err(format!("lexer of [{}] on {:?}: collecting all tokens gives {}, expected {}", defs(), inp, run["all"], Value::Array(exp))); }
    if run["other"].as_array().map(|a| !a.is_empty()).unwrap_or(true) { return Err(format!("lexer of [{}] on {:?}: channel 1 has tokens {}", defs(), inp, run["other"])); }
  }
  Ok(())
}

pub fn c04(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let n = 1 + s.below(8) as usize;
  let mut ls: Vec<Lex> = vec![];
  for k in 0..n { ls.push(gen_lex(s, k)?) }
  // the tool's own lexer, generated from the bundled description, against the v1 lexer
  let own = s.chance(1, 8);
  c.case(ls.iter().map(|l| format!("[{}]", l.rs.iter().map(|(r, n)| format!("{}: /{}/", n, r.text())).collect::<Vec<_>>().join("; "))).collect::<Vec<_>>().join(" "));
  for l in &ls { c.label(if l.has_ws { "with WHITE_SPACE" } else { "without WHITE_SPACE" }); c.label_if(l.rs.is_empty(), "no tokens at all"); c.label_if(l.rs.iter().any(|r| r.1 == "T_2"), "with string literals"); c.label_if(l.rs.len() > 10, "more than 10 tokens"); }
  let mut units: Vec<Unit> = ls.iter().map(|l| l.unit.clone()).collect();
  if own {
    let bt = crate::pipeline::build(&crate::pipeline::bundled_tree()?)?;
    let inputs: Vec<String> = (0..30).map(|_| crate::lexmodel::lexer_input(s, crate::lexmodel::Which::V1)).collect();
    units.push(Unit { name: "Syntaxis".into(), data: bt.data.iter().map(|d| (d.token_type, d.token_name.clone())).collect(), src: render(&bt.data, "Syntaxis")?, inputs });
    c.label("own grammar");
  }
  let out = run_units(&units)?;
  for (l, v) in ls.iter().zip(&out) { check_unit(l, v, c)? }
  if own {
    let v = &out[ls.len()];
    for (inp, run) in units[ls.len()].inputs.iter().zip(v["runs"].as_array().unwrap()) {
      let toks = imp("v1 lexer", || syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer::new(inp).scan_all_on_channel_tokens(0))?;
      let t: Vec<Value> = toks.iter().map(|t| json!([t.token_type, t.token_name, t.text, t.channel, t.token_index, t.char_start_index, t.char_stop_index, t.start.line, t.start.char_position, t.stop.line, t.stop.char_position])).collect();
      c.evals += 1;
      if run["all"].as_array() != Some(&t) { return Err(format!("the lexer generated from the bundled grammar gives {} on {:?}, the shipped one {}", run["all"], inp, Value::Array(t))); }
    }
  }
  c.nontrivial = ls.iter().any(|l| l.rs.len() >= 2);
  Ok(())
}

/// Listed defects of the template that are not repaired: (key, still fails?)
pub fn canaries() -> Result<Vec<(String, bool)>, String> {
  let one = |name: &str, re: &str| -> Result<bool, String> {
    let data = vec![LexerRuleData { token_type: 2, token_name: name.into(), regex: format!("^({})", re) }];
    let u = Unit { name: "A".into(), data: vec![(2, name.into())], src: render(&data, "A")?, inputs: vec![] };
    match run_units(&[u]) { Ok(_) => Ok(false), Err(e) if e.starts_with("HARNESS:") => Err(e), Err(_) => Ok(true) }
  };
  Ok(vec![("token named Self".into(), one("Self", "a")?), ("carriage return in a regular literal".into(), one("Ab", "a\rb")?), ("quote and four hashes in a regular literal".into(), one("Ab", "\"####")?)])
}
