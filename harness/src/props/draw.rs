//! C20: the drawn page, read back by an HTML tokenizer and a JavaScript engine.
use crate::engine::*;
use crate::trees::{self, TreeOpts};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::gui::ast_drawer::ASTDrawer;

// ------------------------------------------------------------------ HTML tokenizer (what the page needs of the standard)

#[derive(Debug, Default, PartialEq, Clone)]
pub struct Page { pub skeleton: Vec<String>, pub titles: Vec<String>, pub scripts: Vec<(String, String)> }

fn is_ws(c: char) -> bool { matches!(c, ' ' | '\n' | '\t' | '\x0c') }

/// position just after `</name` when an appropriate end tag starts at i
fn end_tag_at(s: &[char], i: usize, name: &str) -> Option<usize> {
  let n: Vec<char> = name.chars().collect();
  if i + 2 + n.len() >= s.len() || s[i] != '<' || s[i + 1] != '/' { return None; }
  for (k, c) in n.iter().enumerate() { if s[i + 2 + k].to_ascii_lowercase() != *c { return None; } }
  let j = i + 2 + n.len();
  if is_ws(s[j]) || s[j] == '/' || s[j] == '>' { Some(j) } else { None }
}
fn starts_ci(s: &[char], i: usize, w: &str) -> bool { w.chars().enumerate().all(|(k, c)| s.get(i + k).map(|x| x.to_ascii_lowercase() == c).unwrap_or(false)) }

/// end of script data per the standard (escaped and double-escaped states)
fn script_end(s: &[char], start: usize) -> Option<usize> {
  #[derive(PartialEq, Clone, Copy)] enum St { Data, Esc, Double }
  let mut st = St::Data;
  let mut i = start;
  while i < s.len() {
    match st {
      St::Data => {
        if starts_ci(s, i, "<!--") {
          st = St::Esc; i += 4;
          // "<!-->" and "<!--->" leave the escaped state at once
          let mut k = i; while s.get(k) == Some(&'-') { k += 1 }
          if s.get(k) == Some(&'>') { st = St::Data; i = k + 1 }
          continue;
        }
        if end_tag_at(s, i, "script").is_some() { return Some(i); }
      },
      St::Esc => {
        if starts_ci(s, i, "--") { let mut k = i; while s.get(k) == Some(&'-') { k += 1 } if s.get(k) == Some(&'>') { st = St::Data; i = k + 1; continue; } i = k; continue; }
        if end_tag_at(s, i, "script").is_some() { return Some(i); }
        if starts_ci(s, i, "<script") && s.get(i + 7).map(|c| is_ws(*c) || *c == '/' || *c == '>').unwrap_or(false) { st = St::Double; i += 7; continue; }
      },
      St::Double => {
        if starts_ci(s, i, "--") { let mut k = i; while s.get(k) == Some(&'-') { k += 1 } if s.get(k) == Some(&'>') { st = St::Data; i = k + 1; continue; } i = k; continue; }
        if end_tag_at(s, i, "script").is_some() { st = St::Esc; i += 8; continue; }
      },
    }
    i += 1;
  }
  None
}

fn unescape(s: &str) -> String {
  let mut o = String::new();
  let mut r = s;
  while let Some(i) = r.find('&') {
    o.push_str(&r[..i]);
    r = &r[i..];
    let named = [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&apos;", '\''), ("&nbsp;", '\u{a0}'), ("&grave;", '`'), ("&sol;", '/'), ("&amp", '&'), ("&lt", '<'), ("&gt", '>'), ("&quot", '"')];
    if let Some((n, c)) = named.iter().find(|(n, _)| r.starts_with(n)) { o.push(*c); r = &r[n.len()..]; continue; }
    let b = r.as_bytes();
    if b.len() > 2 && b[1] == b'#' {
      let (hex, st) = if b[2] == b'x' || b[2] == b'X' { (true, 3) } else { (false, 2) };
      let mut j = st;
      while j < b.len() && (if hex { b[j].is_ascii_hexdigit() } else { b[j].is_ascii_digit() }) { j += 1 }
      if j > st {
        let c = u32::from_str_radix(&r[st..j], if hex { 16 } else { 10 }).ok().and_then(char::from_u32).unwrap_or('\u{fffd}');
        o.push(c);
        if j < b.len() && b[j] == b';' { j += 1 }
        r = &r[j..];
        continue;
      }
    }
    o.push('&'); r = &r[1..];
  }
  o.push_str(r);
  o
}

pub fn tokenize(page: &str) -> Result<Page, String> {
  let norm: String = page.replace("\r\n", "\n").replace('\r', "\n");
  let s: Vec<char> = norm.chars().collect();
  let mut p = Page::default();
  let mut i = 0;
  let text_of = |a: usize, b: usize| -> String { s[a..b].iter().map(|c| if *c == '\0' { '\u{fffd}' } else { *c }).collect() };
  let mut text = String::new();
  while i < s.len() {
    if s[i] != '<' { text.push(s[i]); i += 1; continue; }
    let t = text.split_whitespace().collect::<Vec<_>>().join(" ");
    if !t.is_empty() { p.skeleton.push(format!("text {}", t)); }
    text.clear();
    if starts_ci(&s, i, "<!--") {
      let mut j = i + 4;
      let mut end = None;
      while j < s.len() { if (starts_ci(&s, j, "-->") ) || (j == i + 4 && s[j] == '>') { end = Some(j); break; } j += 1 }
      let j = end.ok_or("unterminated comment in the page")?;
      i = if s[j] == '>' { j + 1 } else { j + 3 };
      p.skeleton.push("comment".into());
      continue;
    }
    let close = s.get(i + 1) == Some(&'/');
    let decl = s.get(i + 1) == Some(&'!');
    let k = i + 1 + (close || decl) as usize;
    if !s.get(k).map(|c| c.is_ascii_alphabetic()).unwrap_or(false) { text.push('<'); i += 1; continue; }
    let mut j = k;
    while j < s.len() && !is_ws(s[j]) && s[j] != '>' && s[j] != '/' { j += 1 }
    let name: String = text_of(k, j).to_ascii_lowercase();
    // attributes: quotes protect '>'
    let a0 = j;
    let mut q: Option<char> = None;
    let mut after_eq = false;
    while j < s.len() {
      match q { Some(c) => if s[j] == c { q = None }, None => { if s[j] == '>' { break; } if (s[j] == '"' || s[j] == '\'') && after_eq { q = Some(s[j]) } if s[j] == '=' { after_eq = true } else if !is_ws(s[j]) { after_eq = false } } }
      j += 1;
    }
    if j >= s.len() { return Err("unterminated tag in the page".into()); }
    let attrs = text_of(a0, j).split_whitespace().collect::<Vec<_>>().join(" ");
    p.skeleton.push(format!("{}{} {}", if close { "/" } else if decl { "!" } else { "" }, name, attrs));
    i = j + 1;
    if close || decl { continue; }
    match name.as_str() {
      "script" => { let e = script_end(&s, i).ok_or("the script never ends")?; p.scripts.push((attrs, text_of(i, e))); i = e; },
      "title" | "textarea" => { let mut e = i; while e < s.len() && end_tag_at(&s, e, &name).is_none() { e += 1 } if e >= s.len() { return Err(format!("{} never ends", name)); } if name == "title" { p.titles.push(unescape(&text_of(i, e))) } i = e; },
      "style" | "xmp" | "iframe" | "noembed" | "noframes" => { let mut e = i; while e < s.len() && end_tag_at(&s, e, &name).is_none() { e += 1 } if e >= s.len() { return Err(format!("{} never ends", name)); } i = e; },
      _ => {},
    }
  }
  let t = text.split_whitespace().collect::<Vec<_>>().join(" ");
  if !t.is_empty() { p.skeleton.push(format!("text {}", t)); }
  Ok(p)
}

// ------------------------------------------------------------------ JavaScript engine

const RUNNER: &str = r#"
const vm = require('vm'), readline = require('readline');
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity, terminal: false });
function conv(x) {
  const out = [], st = [x];
  while (st.length) {
    const n = st.pop();
    if (n === null || typeof n !== 'object') { out.push(['?', String(n), null, 0]); continue; }
    const name = typeof n.name === 'string' ? n.name : null;
    if ('text' in n) out.push(['leaf', name, typeof n.text === 'string' ? n.text : null, Array.isArray(n.children) ? n.children.length : 0]);
    else {
      const c = Array.isArray(n.children) ? Array.from(n.children) : null;
      out.push(['rule', name, String(n.id), c ? c.length : -1]);
      if (c) for (let i = c.length; i-- > 0;) st.push(c[i]);
    }
    if (out.length > 1000000) throw new Error('endless tree');
  }
  return out;
}
async function run(code) {
  const got = [];
  const stop = new Error('captured');
  const anything = () => new Proxy(function () {}, { get: (t, k) => k === Symbol.toPrimitive ? () => '' : anything(), apply: () => anything(), construct: () => anything() });
  const sandbox = { document: anything(), window: anything(), console: { log() {}, error() {}, warn() {} } };
  vm.createContext(sandbox);
  let err = null;
  try {
    const m = new vm.SourceTextModule(code, { context: sandbox, identifier: 'page' });
    await m.link(async (spec) => {
      const names = ['hierarchy', 'tree', 'cluster', 'create', 'select', 'linkVertical', 'curveBumpX', 'default'];
      const s = new vm.SyntheticModule(names, function () {
        for (const n of names) this.setExport(n, anything());
        this.setExport('hierarchy', (d) => { got.push(conv(d)); throw stop; });
      }, { context: sandbox });
      return s;
    });
    await m.evaluate({ timeout: 20000 });
  } catch (e) { if (e !== stop) err = String(e && e.message || e); }
  return { got: got.length ? got[0] : null, err };
}
(async () => { for await (const line of rl) { let r; try { r = await run(JSON.parse(line)); } catch (e) { r = { got: null, err: 'runner: ' + e }; } process.stdout.write(JSON.stringify(r) + '\n'); } })();
"#;

struct Js { _child: Child, i: ChildStdin, o: BufReader<ChildStdout> }
thread_local! { static JS: RefCell<Option<Js>> = const { RefCell::new(None) }; }

fn js_start() -> Result<Js, String> {
  let mut cmd = Command::new("node");
  cmd.args(["--experimental-vm-modules", "--no-warnings", "--stack-size=3000", "-e", RUNNER]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
  unsafe { cmd.pre_exec(|| { let r = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY }; libc::setrlimit(libc::RLIMIT_AS, &r); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
  let mut child = cmd.spawn().map_err(|e| format!("HARNESS:cannot start node: {}", e))?;
  let i = child.stdin.take().unwrap();
  let o = BufReader::new(child.stdout.take().unwrap());
  Ok(Js { _child: child, i, o })
}

pub fn run_js(code: &str) -> Result<Value, String> {
  JS.with(|j| {
    let mut j = j.borrow_mut();
    if j.is_none() { *j = Some(js_start()?); }
    let js = j.as_mut().unwrap();
    let mut line = serde_json::to_string(code).unwrap();
    line.push('\n');
    js.i.write_all(line.as_bytes()).and_then(|_| js.i.flush()).map_err(|e| format!("HARNESS:node: {}", e))?;
    let mut out = String::new();
    js.o.read_line(&mut out).map_err(|e| format!("HARNESS:node: {}", e))?;
    serde_json::from_str(&out).map_err(|e| format!("HARNESS:node answered {:?}: {}", out, e))
  })
}

// ------------------------------------------------------------------ comparison

/// preorder: kind, name, id or text, number of children
fn expect(t: &RuleContext, out: &mut Vec<Value>) {
  out.push(json!(["rule", t.rule_name, t.rule_index.to_string(), t.children.len()]));
  for c in &t.children {
    match c {
      ASTContext::Rule(r) => expect(r, out),
      ASTContext::Terminal(x) => out.push(json!(["leaf", x.symbol.token_name, x.symbol.text, 0])),
      ASTContext::Error(x) => out.push(json!(["leaf", x.symbol.token_name, x.symbol.text, 0])),
    }
  }
}
fn cmp(t: &RuleContext, got: &Value) -> Result<(), String> {
  let mut e = vec![];
  expect(t, &mut e);
  let none = vec![];
  let g = got.as_array().unwrap_or(&none);
  for (i, (a, b)) in e.iter().zip(g).enumerate() { if a != b { return Err(format!("node {} (preorder): the viewer sees {}, the tree has {}", i, b, a)); } }
  if e.len() != g.len() { return Err(format!("the viewer sees {} nodes, the tree has {}", g.len(), e.len())); }
  Ok(())
}

pub fn check_page(page: &str, tree: &RuleContext, title: &str) -> Result<Page, String> {
  let p = tokenize(page)?;
  if p.titles.len() != 1 || p.titles[0] != title { return Err(format!("the page's title is {:?}, expected {:?}", p.titles, title)); }
  let mods: Vec<&(String, String)> = p.scripts.iter().filter(|(_, c)| !c.trim().is_empty()).collect();
  if mods.len() != 1 { return Err(format!("the page has {} scripts", mods.len())); }
  let r = run_js(&mods[0].1)?;
  if r["got"].is_null() { return Err(format!("the page's script hands the viewer nothing: {}", r["err"])); }
  cmp(tree, &r["got"])?;
  Ok(p)
}

pub fn c20(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let wild = s.chance(3, 4);
  let o = TreeOpts { errors: true, rule_ids: 9, tok_types: 16, max_depth: if s.chance(1, 12) { 40 } else { 7 }, wild_text: wild, ident_names: !s.chance(1, 2) };
  let mut t = trees::gen_tree(s, &o);
  if s.chance(1, 25) { for _ in 0..s.range(10, 120) { t = RuleContext { rule_index: 1, rule_name: "chain".into(), children: vec![ASTContext::Rule(t)] } } c.label("deep chain"); }
  trees::alias_ids(s, &mut t);
  let title: String = if s.chance(1, 2) { crate::lexmodel::word(s, false, 10) } else { trees::any_text(s, 20).chars().filter(|c| *c != '\0' && *c != '\r').collect() };
  c.case(format!("title {:?} tree {}", title, trees::show(&t)));
  let mut lv = vec![]; trees::leaves(&t, &mut lv);
  let all: String = lv.iter().map(|(t, _)| format!("{}{}", t.text, t.token_name)).collect();
  for (l, w) in [("back-tick", "`"), ("${", "${"), ("backslash", "\\"), ("newline", "\n"), ("carriage return", "\r"), ("markup end", "</"), ("comment open", "<!--"), ("NUL", "\0"), ("quote", "\"")] { c.label_if(all.contains(w), &format!("text with {}", l)); }
  c.label_if(title.contains('<') || title.contains('&'), "title with markup");
  let file = *s.pick(&["out.html", "pages/树.html", "./pages/a b.html", "page", "pages/page.", "pages/.hidden", "pages/x.y.HTM", "pages/../up.txt", "pages/%41+&#.html", "pages/~tmp.html.bak", "pages/ "]);
  std::fs::create_dir_all("pages").map_err(|e| format!("HARNESS:{}", e))?;
  let pre = s.weighted(&[2, 1, 1, 2]);
  match pre { 3 => { let o = TreeOpts { errors: true, rule_ids: 9, tok_types: 16, max_depth: 5, wild_text: true, ident_names: true }; let old = trees::gen_tree(s, &o); imp("drawing", || ASTDrawer::new().draw(&old, "an older page", file))?; c.label("page over an older page") }, 0 => { let _ = std::fs::remove_file(file); }, 1 => std::fs::write(file, vec![b'y'; 300_000]).map_err(|e| format!("HARNESS:{}", e))?, _ => std::fs::write(file, b"short").map_err(|e| format!("HARNESS:{}", e))? }
  c.label_if(pre > 0, "existing file");
  imp("drawing", || ASTDrawer::new().draw(&t, &title, file))?;
  let page = std::fs::read(file).map_err(|e| format!("no page was written: {}", e))?;
  let page = String::from_utf8(page).map_err(|_| "the page is not UTF-8".to_string())?;
  let p = check_page(&page, &t, &title)?;
  // the markup around is that of a page for a trivial tree
  let tiny = RuleContext { rule_index: 0, rule_name: "x".into(), children: vec![] };
  imp("drawing", || ASTDrawer::new().draw(&tiny, "x", "tiny.html"))?;
  let q = check_page(&std::fs::read_to_string("tiny.html").map_err(|e| format!("no page was written: {}", e))?, &tiny, "x")?;
  imp("drawing", || ASTDrawer::new().draw(&t, &title, "fresh.html"))?;
  if std::fs::read_to_string("fresh.html").map_err(|e| format!("no page was written: {}", e))? != page { return Err("a page drawn over an existing file differs from one drawn into a new file".into()); }
  let _ = std::fs::remove_file("fresh.html");
  if p.skeleton != q.skeleton { return Err("the markup of the page depends on the content of the tree or title".into()); }
  c.nontrivial = lv.len() >= 2;
  Ok(())
}
