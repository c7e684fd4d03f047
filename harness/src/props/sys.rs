//! C26 C27 C28 C29: faults while writing, repeatability and symmetry, independence of instances, undefined names.
use crate::ebnf::*;
use crate::engine::*;
use crate::lexmodel::{self, Which};
use crate::pipeline::*;
use crate::trees::{self, TreeOpts};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use std::os::unix::fs::{FileTypeExt, OpenOptionsExt};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::gui::ast_drawer::ASTDrawer;
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::serde_ast;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser as V1Parser;

// ------------------------------------------------------------------ C26

fn fsize(limit: Option<u64>) {
  unsafe {
    let mut r: libc::rlimit = std::mem::zeroed();
    libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
    r.rlim_cur = limit.unwrap_or(r.rlim_max as u64) as libc::rlim_t;
    libc::setrlimit(libc::RLIMIT_FSIZE, &r);
  }
}
struct Unlimit;
impl Drop for Unlimit { fn drop(&mut self) { fsize(None) } }

pub fn c26(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let io = |e: std::io::Error| format!("HARNESS:{}", e);
  unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); }
  let o = TreeOpts { errors: true, rule_ids: 9, tok_types: 16, max_depth: 6, wild_text: true, ident_names: true };
  let mut t = trees::gen_tree(s, &o);
  // sometimes a page of several hundred kilobytes
  let big = s.chance(1, 6);
  if big { let n = s.range(800, 4000); for i in 0..n { t.children.push(ASTContext::Terminal(syntaxis::runtime::ast::terminal_context::TerminalContext { symbol: crate::trees::tok0(2, "NAME", &format!("filler text number {} of a large page, {}", i, "é".repeat(i % 40))) })) } }
  let title = lexmodel::word(s, false, 8);
  let dir = "faults";
  let _ = std::fs::remove_dir_all(dir);
  std::fs::create_dir_all(dir).map_err(io)?;
  std::fs::write("faults/bystander.html", b"untouched").map_err(io)?;
  let d = imp("creating a drawer", ASTDrawer::new)?;
  imp("drawing without a fault", || d.draw(&t, &title, "faults/whole.html"))?;
  let whole = std::fs::read("faults/whole.html").map_err(|e| format!("no page was written: {}", e))?;
  let n = whole.len();
  let kind = s.weighted(&[8, 2, 2, 2, 2, 3, 3]);
  let names = ["size limit", "missing directory", "destination is a directory", "path through a file", "full pipe closed early", "slow pipe", "no fault"];
  let stale = s.chance(1, 2);
  let limit = match s.usize_below(6) { 0 => 0, 1 => n - 1, 2 => n, 3 => n - 1 - s.usize_below(n.min(400)), 4 => s.usize_below(n.min(9000)), _ => s.usize_below(n) };
  c.case(format!("{} (limit {}), page of {} bytes, stale file {}, tree {}", names[kind], limit, n, stale, trees::show(&t)));
  c.label(names[kind]);
  c.label_if(big, "large page");
  c.label_if(stale, "stale file at the destination");
  let dst = "faults/out.html";
  if stale && (kind == 0 || kind == 6) { std::fs::write(dst, vec![b'x'; n / 2 + 7]).map_err(io)?; }
  let complete = |got: &[u8], what: &str| -> Result<(), String> { if got == &whole[..] { Ok(()) } else { Err(format!("{}: drawing returned as if it had succeeded, but the page has {} of {} bytes{}", what, got.len(), n, if got.len() == n { " and other content" } else { "" })) } };
  match kind {
    0 => {
      fsize(Some(limit as u64));
      let g = Unlimit;
      let r = imp("drawing", || d.draw(&t, &title, dst));
      drop(g);
      match r { Ok(()) => { let got = std::fs::read(dst).map_err(|e| format!("drawing returned but left no page: {}", e))?; complete(&got, "files limited in size")?; c.label("succeeded under a limit") }, Err(_) => { if limit >= n { return Err(format!("drawing a page of {} bytes fails although {} may be written", n, limit)) } c.label("failed loudly") } }
    },
    1 | 2 | 3 => {
      let p = match kind { 1 => "faults/none/out.html".to_string(), 2 => { std::fs::create_dir_all("faults/out.html").map_err(io)?; dst.to_string() }, _ => "faults/bystander.html/out.html".to_string() };
      if let Ok(()) = imp("drawing", || d.draw(&t, &title, &p)) {
        // an implementation that finds a way to write the page is fine
        let got = std::fs::read(&p).map_err(|_| format!("drawing to {} returned as if it had succeeded, but there is no page", p))?;
        complete(&got, &p)?;
      } else { c.label("failed loudly") }
    },
    4 | 5 => {
      let cp = std::ffi::CString::new(dst).unwrap();
      if unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } != 0 { return Err("HARNESS:mkfifo".into()) }
      let mut rd = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(dst).map_err(io)?;
      let step = 1 + s.usize_below(9000);
      let early = kind == 4;
      let stop_after = s.usize_below(n);
      let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
      let done2 = done.clone();
      let h = std::thread::spawn(move || {
        let mut got = vec![];
        let mut buf = vec![0u8; step];
        loop {
          let over = done2.load(std::sync::atomic::Ordering::SeqCst);
          if early && got.len() >= stop_after { return got }
          match rd.read(&mut buf) {
            Ok(0) | Err(_) => { if over { return got } std::thread::sleep(std::time::Duration::from_micros(50)) },
            Ok(k) => got.extend_from_slice(&buf[..k]),
          }
        }
      });
      let r = imp("drawing", || d.draw(&t, &title, dst));
      done.store(true, std::sync::atomic::Ordering::SeqCst);
      let got = h.join().map_err(|_| "HARNESS:reader".to_string())?;
      let still = std::fs::symlink_metadata(dst).map(|m| m.file_type().is_fifo()).unwrap_or(false);
      match r {
        Err(_) if !early => return Err("drawing into a slow pipe fails".into()),
        Err(_) => c.label("failed loudly"),
        Ok(()) if !still => complete(&std::fs::read(dst).map_err(|e| format!("drawing returned but left no page: {}", e))?, "pipe replaced by a file")?,
        // what the pipe had room for was delivered when the reader left
        Ok(()) if early => { if n > got.len() + (1 << 20) + step { return Err(format!("the reader left after {} of {} bytes and drawing still returned as if it had succeeded", got.len(), n)) } },
        Ok(()) => complete(&got, "slow pipe")?,
      }
    },
    _ => {
      imp("drawing", || d.draw(&t, &title, dst))?;
      complete(&std::fs::read(dst).map_err(|e| format!("no page was written: {}", e))?, "no fault")?;
    },
  }
  if std::fs::read("faults/bystander.html").map(|b| b != b"untouched").unwrap_or(true) { return Err("another file was touched".into()) }
  // and after the fault the drawer works as before
  imp("drawing after a fault", || d.draw(&t, &title, "faults/after.html"))?;
  complete(&std::fs::read("faults/after.html").map_err(|e| format!("no page was written: {}", e))?, "after the fault")?;
  c.nontrivial = kind != 6;
  Ok(())
}

// ------------------------------------------------------------------ C27

type Facts = BTreeMap<String, (bool, BTreeSet<String>, BTreeSet<String>)>;

struct View { voc: (Vec<(usize, Option<String>)>, Vec<(usize, Option<String>)>), data: Vec<(usize, String, String)>, prods: BTreeSet<(usize, Vec<crate::cfg::Sym>)>, cells: BTreeSet<(usize, usize)>, table: BTreeMap<(usize, usize), Vec<crate::cfg::Sym>>, facts: Facts, pfacts: BTreeSet<String>, printed: String }

fn grammar_state(g: &Grammar) -> ((Vec<(usize, Option<String>)>, Vec<(usize, Option<String>)>), BTreeSet<(usize, Vec<crate::cfg::Sym>)>) {
  (voc_maps(&g.vocabulary), g.productions.iter().map(|p| (p.left, p.right.iter().map(sym).collect())).collect())
}
fn look(b: &Built) -> Result<View, String> {
  let g = &b.grammar;
  let before = grammar_state(g);
  let v = &g.vocabulary;
  let (first, pfirst, follow, tb) = imp("the analyses", || { let (f, pf) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&pf, &fo); (f, pf, fo, t) })?;
  let _listing = imp("printing the grammar", || format!("{}", g))?;
  let after = grammar_state(g);
  if before != after { return Err("the analyses change the grammar".into()); }
  let tn = |i: &usize| v.get_terminal_name_by_id(*i).unwrap_or(format!("#{}", i));
  let mut facts = Facts::new();
  for (id, f) in &first { if let Some(n) = v.get_nonterminal_name_by_id(*id) { facts.insert(n, (f.allow_epsilon, f.set.iter().map(tn).collect(), follow.get(id).map(|x| x.iter().map(tn).collect()).unwrap_or_default())); } }
  let pfacts = pfirst.iter().map(|(p, f)| format!("{} {:?} {} {:?}", p.left, p.right.iter().map(sym).collect::<Vec<_>>(), f.allow_epsilon, f.set.iter().collect::<BTreeSet<_>>())).collect();
  Ok(View {
    voc: before.0, prods: before.1,
    data: b.data.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect(),
    cells: tb.keys().copied().collect(),
    table: tb.iter().map(|(k, p)| (*k, p.right.iter().map(sym).collect())).collect(),
    facts, pfacts, printed: format!("{}|{}", b.printed_symbols, b.printed),
  })
}

fn map_block(b: &Block, f: &dyn Fn(&str) -> String) -> Block {
  b.iter().map(|a| match a { Alt::Eps => Alt::Eps, Alt::Seq(v) => Alt::Seq(v.iter().map(|e| Elem { atom: match &e.atom { Atom::Tok(n) => Atom::Tok(f(n)), Atom::Rule(n) => Atom::Rule(f(n)), Atom::Lit(l) => Atom::Lit(l.clone()), Atom::Group(b) => Atom::Group(map_block(b, f)) }, ..e.clone() }).collect()) }).collect()
}
fn rename(g: &Gram, f: &dyn Fn(&str) -> String) -> Gram { Gram { defs: g.defs.iter().map(|d| match d { Def::Rule(n, b) => Def::Rule(f(n), map_block(b, f)), Def::Token(n, p) => Def::Token(f(n), p.clone()) }).collect() } }
fn shuffle_alts(s: &mut Source, b: &mut Block) {
  for a in b.iter_mut() { if let Alt::Seq(v) = a { for e in v { if let Atom::Group(b) = &mut e.atom { shuffle_alts(s, b) } } } }
  if s.chance(1, 2) { s.shuffle(b) }
}
/// any order of definitions that keeps the start rule first and the definitions of one name in order
fn reorder(s: &mut Source, g: &Gram) -> Gram {
  let key = |d: &Def| match d { Def::Rule(n, _) => n.clone(), Def::Token(n, _) => n.clone() };
  let mut idx: Vec<usize> = (0..g.defs.len()).collect();
  s.shuffle(&mut idx);
  let start = g.defs.iter().position(|d| matches!(d, Def::Rule(..)));
  // slots of one name are filled in the original order
  let mut by: HashMap<String, Vec<usize>> = HashMap::new();
  for (i, d) in g.defs.iter().enumerate() { by.entry(key(d)).or_default().push(i) }
  let mut at: HashMap<String, usize> = HashMap::new();
  let mut out: Vec<Def> = idx.iter().map(|i| { let k = key(&g.defs[*i]); let n = at.entry(k.clone()).or_insert(0); *n += 1; g.defs[by[&k][*n - 1]].clone() }).collect();
  if let Some(st) = start { let name = key(&g.defs[st]); let k = out.iter().position(|d| key(d) == name).unwrap(); let d = out.remove(k); out.insert(0, d) }
  Gram { defs: out }
}

fn facts_diff(a: &Facts, b: &Facts, back: &dyn Fn(&str) -> String, what: &str) -> Result<(), String> {
  let b: Facts = b.iter().map(|(k, (e, x, y))| (back(k), (*e, x.iter().map(|z| back(z)).collect(), y.iter().map(|z| back(z)).collect()))).collect();
  for (k, v) in a { if b.get(k) != Some(v) { return Err(format!("{} changes the analysis of rule {}: {:?} becomes {:?}", what, k, v, b.get(k))) } }
  if a.len() != b.len() { return Err(format!("{} changes the set of rules", what)) }
  Ok(())
}

fn parse_with(g: &Gram, w: &[String], v1: bool) -> Result<RuleContext, String> {
  let b = build(&tree_old(g))?;
  let t = table(&b.grammar)?;
  let tid = g.token_id();
  let ids: Vec<usize> = w.iter().map(|n| tid[n]).collect();
  let toks = tokens_for(&ids, g, true);
  if v1 { let p = V1Parser::new(toks, t, b.grammar.vocabulary); imp("SyntaxisParser::parse", || p.parse()) } else { let p = LL1Parser::new(toks, t, b.grammar); imp("LL1Parser::parse", || p.parse()) }
}
/// the shape of a tree in names
fn named(t: &RuleContext, back: &dyn Fn(&str) -> String) -> String {
  let mut o = format!("{}(", back(&t.rule_name));
  for c in &t.children { match c { ASTContext::Rule(r) => o.push_str(&named(r, back)), ASTContext::Terminal(x) => { o.push_str(&back(&x.symbol.token_name)); o.push(':'); o.push_str(&x.symbol.text) }, ASTContext::Error(_) => o.push('!') } o.push(' ') }
  o.push(')');
  o
}

pub fn c27(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let ll1 = s.chance(1, 3);
  let g = if ll1 { gen_ll1(s) } else { let (p, d) = (s.chance(1, 2), s.chance(1, 2)); let o = super::gram::opts(s, p, d); gen_gram(s, &o) };
  c.case(g.show());
  super::gram::labels(&g, c);
  let tree = tree_old(&g);
  let b1 = build(&tree)?;
  let v1 = look(&b1)?;
  // the same grammar again, and the same objects analysed again
  for k in 0..2 {
    let b;
    let v2 = if k == 0 { look(&b1)? } else { b = build(&tree)?; look(&b)? };
    let what = ["analysing the same grammar twice", "building the same grammar twice"][k];
    if v1.voc != v2.voc { return Err(format!("{} numbers symbols differently: {:?} and {:?}", what, v1.voc, v2.voc)) }
    if v1.data != v2.data { return Err(format!("{} gives different lexer data: {:?} and {:?}", what, v1.data, v2.data)) }
    if v1.prods != v2.prods { return Err(format!("{} gives different productions", what)) }
    if v1.facts != v2.facts || v1.pfacts != v2.pfacts { return Err(format!("{} gives different FIRST or FOLLOW sets", what)) }
    if v1.cells != v2.cells { return Err(format!("{} fills different cells of the table", what)) }
    if v1.printed != v2.printed { return Err(format!("{} prints different notices: {:?} and {:?}", what, v1.printed, v2.printed)) }
    if (ll1 || cfg_of(&b1.grammar).ll1_conflicts().is_empty()) && v1.table != v2.table { return Err(format!("{} gives different tables for a grammar without conflicts", what)) }
    c.evals += 1;
  }
  // order of definitions and alternatives
  let mut h = reorder(s, &g);
  if s.chance(1, 2) { for d in &mut h.defs { if let Def::Rule(_, b) = d { shuffle_alts(s, b) } } c.label("alternatives in another order") }
  let v3 = look(&build(&tree_old(&h))?)?;
  let id = |x: &str| x.to_string();
  facts_diff(&v1.facts, &v3.facts, &id, "another order of definitions")?;
  let pats = |v: &View| -> BTreeMap<String, String> { v.data.iter().map(|d| (d.1.clone(), d.2.clone())).collect() };
  if pats(&v1) != pats(&v3) { return Err("another order of definitions changes the patterns of tokens".into()) }
  // other names
  let (rn, tn) = (g.rule_names(), g.token_names());
  let (rr, tt) = (names(s, rn.len(), false, true), names(s, tn.len(), true, true));
  let fwd: HashMap<String, String> = rn.iter().cloned().zip(rr.iter().cloned()).chain(tn.iter().cloned().zip(tt.iter().cloned())).collect();
  let rev: HashMap<String, String> = fwd.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
  let back = |x: &str| rev.get(x).cloned().unwrap_or(x.to_string());
  let r = rename(&g, &|x| fwd.get(x).cloned().unwrap_or(x.to_string()));
  let v4 = look(&build(&tree_old(&r))?)?;
  facts_diff(&v1.facts, &v4.facts, &back, "a renaming")?;
  if v1.prods != v4.prods { return Err("a renaming changes the productions".into()) }
  if v1.voc.0.len() != v4.voc.0.len() || v1.voc.1.iter().map(|x| x.0).ne(v4.voc.1.iter().map(|x| x.0)) { return Err("a renaming changes the numbering".into()) }
  if v1.data.iter().map(|d| (d.0, &d.2)).ne(v4.data.iter().map(|d| (d.0, &d.2))) { return Err("a renaming changes the lexer data".into()) }
  if v1.cells != v4.cells { return Err("a renaming changes the table".into()) }
  c.evals += 2;
  if ll1 {
    let mut sm = Sampler::new(&g, 60, 8);
    let node = sm.rule(s, 0);
    let mut w = vec![]; frontier(&node, &mut w);
    if w.len() < 2000 {
      let ws: Vec<String> = w.iter().map(|i| tn[i - 2].clone()).collect();
      let a = named(&parse_with(&g, &ws, false)?, &id);
      for v1p in [false, true] {
        let again = named(&parse_with(&g, &ws, v1p)?, &id);
        if a != again { return Err(format!("the two parsers, or two runs, disagree on {:?}: {} and {}", ws, a, again)) }
        let o = named(&parse_with(&h, &ws, v1p)?, &id);
        if a != o { return Err(format!("another order of definitions changes the tree of {:?}: {} becomes {}", ws, a, o)) }
        let wr: Vec<String> = ws.iter().map(|x| fwd[x].clone()).collect();
        let o = named(&parse_with(&r, &wr, v1p)?, &back);
        if a != o { return Err(format!("a renaming changes the tree of {:?}: {} becomes {}", ws, a, o)) }
        c.evals += 3;
      }
      c.label("sentences parsed under every variant");
    }
  }
  c.nontrivial = rn.len() >= 2 && tn.len() >= 2;
  Ok(())
}

// ------------------------------------------------------------------ C28

enum Job { Lex(Which, String), Load(String), Pipe(Gram, Vec<Vec<usize>>), Text(String), Draw(RuleContext, String, usize), Rules(crate::cfg::Cfg), Voc(Vec<(u8, usize, String)>) }
impl Job {
  fn show(&self) -> String { match self { Job::Lex(w, t) => format!("lex {} {:?}", if *w == Which::V1 { "v1" } else { "old" }, t), Job::Load(t) => format!("load {}", t), Job::Pipe(g, w) => format!("grammar {} sentences {:?}", g.show(), w), Job::Text(t) => format!("grammar text {:?}", t), Job::Draw(t, _, _) => format!("draw {}", trees::show(t)), Job::Rules(g) => format!("productions {} of {:?}", g.show(), g.nts), Job::Voc(v) => format!("vocabulary {:?}", v) } }
}
fn tok_show(t: &Token) -> String { format!("{}|{}|{:?}|{}|{}|{}|{}|{}:{}-{}:{}\n", t.token_type, t.token_name, t.text, t.channel, t.token_index, t.char_start_index, t.char_stop_index, t.start.line, t.start.char_position, t.stop.line, t.stop.char_position) }
fn tree_show(t: &RuleContext, o: &mut String) {
  o.push_str(&format!("({} {}\n", t.rule_index, t.rule_name));
  for c in &t.children { match c { ASTContext::Rule(r) => tree_show(r, o), ASTContext::Terminal(x) => o.push_str(&tok_show(&x.symbol)), ASTContext::Error(x) => { o.push('!'); o.push_str(&tok_show(&x.symbol)) } } }
  o.push(')');
}
fn gram_show(b: &Built) -> Result<String, String> {
  let v = look(b)?;
  let t = if cfg_of(&b.grammar).ll1_conflicts().is_empty() { format!("{:?}", v.table) } else { format!("{:?}", v.cells) };
  Ok(format!("{:?}\n{:?}\n{:?}\n{:?}\n{:?}\n{}\n", v.voc, v.data, v.prods, v.facts, v.pfacts, t))
}
/// one lexer step at a time, so that several can be interleaved
enum AnyLex { Old(syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer), V1(syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer) }
impl AnyLex {
  fn new(w: Which, t: &str) -> Self { if w == Which::V1 { AnyLex::V1(syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer::new(t)) } else { AnyLex::Old(syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer::new(t)) } }
  /// false: over
  fn step(&mut self, o: &mut String) -> bool {
    let r = match self { AnyLex::Old(l) => l.scan(), AnyLex::V1(l) => l.scan() };
    match r { Ok(t) => { o.push_str(&tok_show(&t)); t.token_type != 1 }, Err(_) => { o.push_str("error\n"); false } }
  }
}
fn run_job(j: &Job, place: &str) -> Result<String, String> {
  let mut o = String::new();
  match j {
    Job::Lex(w, t) => imp("scanning", || { let mut l = AnyLex::new(*w, t); while l.step(&mut o) {} })?,
    Job::Load(t) => match imp("loading", || serde_ast::from_str(t))? { Ok(r) => tree_show(&r, &mut o), Err(_) => o.push_str("rejected") },
    Job::Pipe(g, ws) => {
      let tree = tree_old(g);
      let b = build(&tree)?;
      o.push_str(&gram_show(&b)?);
      for w in ws { for v1 in [false, true] {
        let b = build(&tree)?; let t = table(&b.grammar)?; let toks = tokens_for(w, g, true);
        let r = if v1 { let p = V1Parser::new(toks, t, b.grammar.vocabulary); imp("SyntaxisParser::parse", || p.parse())? } else { let p = LL1Parser::new(toks, t, b.grammar); imp("LL1Parser::parse", || p.parse())? };
        tree_show(&r, &mut o);
      } }
    },
    Job::Text(t) => { let (r, _) = parse_v1(t)?; tree_show(&r, &mut o); o.push_str(&gram_show(&build(&remap(&r))?)?) },
    Job::Draw(t, title, k) => {
      let f = format!("{}-{}.html", place, k);
      imp("drawing", || ASTDrawer::new().draw(t, title, &f))?;
      o = std::fs::read_to_string(&f).map_err(|e| format!("no page was written: {}", e))?;
      let _ = std::fs::remove_file(&f);
    },
    Job::Rules(cf) => { let b = Built { grammar: grammar_of(cf), data: vec![], tokens_end: 0, rules_end: 0, printed_symbols: String::new(), printed: String::new() }; o.push_str(&gram_show(&b)?); let (f, _) = b.grammar.first_set(); let mut k: Vec<(usize, BTreeSet<usize>)> = b.grammar.follow_set(&f).into_iter().map(|(a, x)| (a, x.into_iter().collect())).collect(); k.sort(); o.push_str(&format!("{:?}", k)) },
    Job::Voc(v) => {
      let mut voc = syntaxis::runtime::vocabulary::Vocabulary::new();
      for (k, id, n) in v { let r = imp("adding a symbol", || match k { 0 => voc.add_terminal(*id, n), 1 => voc.add_named_nonterminal(*id, n), _ => voc.add_unnamed_nonterminal(*id) })?; o.push_str(&format!("{}", r)) }
      o.push_str(&format!("{:?}", voc_maps(&voc)));
    },
  }
  Ok(o)
}

/// the same piece of work with one detail changed
fn nearly(s: &mut Source, j: &Job) -> Option<Job> {
  Some(match j {
    Job::Lex(w, t) => { let mut cs: Vec<char> = t.chars().collect(); if cs.is_empty() { return None } let i = s.usize_below(cs.len()); if s.chance(1, 2) { cs[i] = lexmodel::any_char(s) } else { cs.truncate(i) } Job::Lex(if s.chance(1, 3) { if *w == Which::V1 { Which::Old } else { Which::V1 } } else { *w }, cs.into_iter().collect()) },
    Job::Rules(g) => {
      let mut h = crate::cfg::Cfg { nts: g.nts.clone(), prods: g.prods.clone() };
      match s.usize_below(3) { 0 => { h.nts.insert(g.nts.iter().max().copied().unwrap_or(0).saturating_add(1 + s.usize_below(3))); }, 1 if !h.prods.is_empty() => { let i = s.usize_below(h.prods.len()); h.prods.remove(i); }, _ => { let l = *s.pick(&h.nts.iter().copied().collect::<Vec<_>>()); if !h.prods.contains(&(l, vec![])) { h.prods.push((l, vec![])) } } }
      Job::Rules(h)
    },
    // the same names with their tokens numbered in another order
    Job::Pipe(g, _) => { let mut d: Vec<Def> = g.defs.iter().filter(|d| matches!(d, Def::Token(..))).cloned().collect(); s.shuffle(&mut d); let rest: Vec<Def> = g.defs.iter().filter(|d| !matches!(d, Def::Token(..))).cloned().collect(); let mut defs = rest; defs.extend(d); Job::Pipe(Gram { defs }, vec![]) },
    Job::Draw(t, title, k) => { let mut t = t.clone(); t.children.reverse(); Job::Draw(t, title.clone(), k + 50) },
    _ => return None,
  })
}

pub fn c28(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let n = 2 + s.usize_below(5);
  let mut jobs: Vec<Job> = vec![];
  for k in 0..n {
    // something new, or nearly the same work as before
    let near = if k > 0 && s.chance(1, 3) { let i = s.usize_below(k); nearly(s, &jobs[i]) } else { None };
    if let Some(j) = near { jobs.push(j); continue; }
    let j = match s.weighted(&[4, 1, 3, 1, 1, 1, 2]) {
      6 => Job::Rules(crate::cfg::gen_cfg(s)),
      0 => { let w = if s.chance(1, 2) { Which::V1 } else { Which::Old }; let mut t = lexmodel::lexer_input(s, w); if t.len() > 3000 { let mut e = 3000; while !t.is_char_boundary(e) { e -= 1 } t.truncate(e) } Job::Lex(w, t) },
      1 => { let o = TreeOpts { errors: false, rule_ids: 9, tok_types: 25, max_depth: 4, wild_text: true, ident_names: true }; let t = trees::gen_tree(s, &o); Job::Load(super::tree::json_of(&t)) },
      2 => { let g = gen_ll1(s); let k = s.usize_below(3); let mut ws = vec![]; for _ in 0..k { let mut sm = Sampler::new(&g, 30, 5); let nd = sm.rule(s, 0); let mut w = vec![]; frontier(&nd, &mut w); if w.len() < 300 { ws.push(w) } } Job::Pipe(g, ws) },
      3 => { let o = GenOpts { plus: true, lits: false, dup: false, max_rules: 4, max_toks: 5, depth: 1, max_alts: 2, max_seq: 3, suffix: true }; let g = gen_gram(s, &o); let (t, _) = write_text(&Gram { defs: fit(g) }, s, Layout::Normal, false); Job::Text(t) },
      4 => { let o = TreeOpts { errors: true, rule_ids: 9, tok_types: 16, max_depth: 4, wild_text: true, ident_names: true }; Job::Draw(trees::gen_tree(s, &o), lexmodel::word(s, false, 8), k) },
      _ => { let m = s.size(6, 40); Job::Voc((0..m).map(|_| (s.usize_below(3) as u8, s.usize_below(12), s.pick(&["aa", "bb", "AA", "_STOP", "cc", "BB"]).to_string())).collect()) },
    };
    jobs.push(j);
  }
  c.case(jobs.iter().map(|j| j.show()).collect::<Vec<_>>().join("\n"));
  c.label(&format!("{} jobs", n));
  let mut alone = vec![];
  for (i, j) in jobs.iter().enumerate() { alone.push(run_job(j, "alone").map_err(|e| format!("job {} alone: {}", i, e))?) }
  // another order, in the same process
  for i in (0..n).rev() { let r = run_job(&jobs[i], "again").map_err(|e| format!("job {} run again: {}", i, e))?; if r != alone[i] { return Err(format!("job {} run again after the others gives another result:\n{}\nfirst:\n{}", i, r, alone[i])) } }
  // lexers interleaved step by step
  let lx: Vec<usize> = (0..n).filter(|i| matches!(jobs[*i], Job::Lex(..))).collect();
  if lx.len() >= 2 {
    let sched: Vec<usize> = (0..40).map(|_| s.usize_below(64)).collect();
    let outs = imp("scanning with several lexers", || {
      let mut ls: Vec<(usize, AnyLex, String, bool)> = lx.iter().map(|i| if let Job::Lex(w, t) = &jobs[*i] { (*i, AnyLex::new(*w, t), String::new(), true) } else { unreachable!() }).collect();
      let mut k = 0;
      while ls.iter().any(|l| l.3) {
        let live: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].3).collect();
        let i = live[sched[k % sched.len()] % live.len()];
        k += 1;
        let l = &mut ls[i];
        l.3 = l.1.step(&mut l.2);
      }
      ls.into_iter().map(|l| (l.0, l.2)).collect::<Vec<_>>()
    })?;
    for (i, o) in outs { if o != alone[i] { return Err(format!("lexer {} interleaved with others gives another result:\n{}\nalone:\n{}", i, o, alone[i])) } }
    c.label("interleaved lexers");
    c.evals += lx.len() as u64;
  }
  // threads
  let rounds = 1 + s.usize_below(2);
  let share = s.chance(1, 3); // all threads do the same job
  let barrier = std::sync::Barrier::new(n);
  let results: Vec<Vec<(usize, Result<String, String>)>> = std::thread::scope(|sc| {
    let hs: Vec<_> = (0..n).map(|i| {
      let (jobs, barrier) = (&jobs, &barrier);
      std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
        let i2 = if share { 0 } else { i };
        barrier.wait();
        (0..rounds).map(|_| (i2, run_job(&jobs[i2], &format!("thread{}", i)))).collect::<Vec<_>>()
      }).unwrap()
    }).collect();
    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
  });
  for r in results { if r.len() != rounds { return Err("HARNESS:a thread was lost".into()) } for (i, r) in r { let r = r.map_err(|e| format!("job {} in a thread beside others: {}", i, e))?; if r != alone[i] { return Err(format!("job {} in a thread beside others gives another result:\n{}\nalone:\n{}", i, r, alone[i])) } } }
  c.label_if(share, "all threads do the same work");
  c.evals += (3 * n) as u64;
  c.nontrivial = n >= 3 && alone.iter().collect::<BTreeSet<_>>().len() >= 2;
  Ok(())
}
/// rule and token names of two characters or more, as the text front end wants them
fn fit(g: Gram) -> Vec<Def> { let f = |x: &str| if x.chars().count() < 2 { format!("{}q", x) } else if x == "epsilon" { "epsilon_".to_string() } else { x.to_string() }; rename(&g, &f).defs }

// ------------------------------------------------------------------ C29

fn refs(b: &Block) -> usize { b.iter().map(|a| match a { Alt::Eps => 0, Alt::Seq(v) => v.iter().map(|e| match &e.atom { Atom::Group(b) => refs(b), _ => 1 }).sum() }).sum() }
fn swap_ref(b: &mut Block, k: &mut usize, f: &mut dyn FnMut(&mut Atom)) -> bool {
  for a in b.iter_mut() { if let Alt::Seq(v) = a { for e in v { match &mut e.atom { Atom::Group(b) => if swap_ref(b, k, f) { return true }, x => { if *k == 0 { f(x); return true } *k -= 1 } } } } }
  false
}
fn no_lazy(b: &Block) -> Block { b.iter().map(|a| match a { Alt::Eps => Alt::Eps, Alt::Seq(v) => Alt::Seq(v.iter().map(|e| Elem { atom: match &e.atom { Atom::Group(b) => Atom::Group(no_lazy(b)), x => x.clone() }, suf: e.suf.clone(), lazy: false }).collect()) }).collect() }
fn repeats(b: &Block) -> bool { let v: Vec<String> = b.iter().map(show_alt).collect(); v.iter().collect::<BTreeSet<_>>().len() != v.len() || b.iter().any(|a| match a { Alt::Eps => false, Alt::Seq(v) => v.iter().any(|e| match &e.atom { Atom::Group(b) => repeats(b), _ => false }) }) }

pub fn c29(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let (p, d) = (s.chance(1, 2), s.chance(1, 4));
  let mut o = super::gram::opts(s, p, d);
  o.max_rules = o.max_rules.min(60);
  let mut g = gen_gram(s, &o);
  let (rn, tn) = (g.rule_names(), g.token_names());
  let text = s.chance(1, 40);
  if text { g = Gram { defs: fit(g) } }
  let mode = s.weighted(&[5, 3, 3]);
  if mode == 2 {
    // a well-formed grammar
    let dup = g.defs.len() != rn.len() + tn.len();
    let twice = g.defs.iter().any(|d| matches!(d, Def::Rule(_, b) if repeats(&no_lazy(b))));
    c.case(g.show());
    let tree = if text { let (t, _) = write_text(&g, s, Layout::Normal, false); remap(&parse_v1(&t)?.0) } else { tree_old(&g) };
    let b = build(&tree)?;
    if !dup && !twice { if !b.printed_symbols.trim().is_empty() || !b.printed.trim().is_empty() { return Err(format!("a grammar without mistakes is complained about: {:?}", format!("{}{}", b.printed_symbols, b.printed))) } c.label("well-formed: no notice"); c.nontrivial = rn.len() >= 2 }
    else { c.label("repeated definitions: only built") }
    return Ok(());
  }
  let total: usize = g.defs.iter().map(|d| if let Def::Rule(_, b) = d { refs(b) } else { 0 }).sum();
  if total == 0 { c.label("nothing to break"); return Ok(()) }
  let lost;
  if mode == 0 {
    // one reference gets a name nobody defined
    let mut k = s.usize_below(total);
    let how = s.usize_below(5);
    let (rn, tn) = (g.rule_names(), g.token_names());
    let near = |x: &str, all: &[String]| -> String {
      let mut w = match how { 0 => format!("{}x", x), 1 => x[..x.len() - x.chars().last().map(|c| c.len_utf8()).unwrap_or(0)].to_string(), 2 => { let mut cs: Vec<char> = x.chars().collect(); let k = cs.len() - 1; cs[k] = if cs[k].is_uppercase() { cs[k].to_ascii_lowercase() } else { cs[k].to_ascii_uppercase() }; cs.into_iter().collect() }, 3 => format!("{}{}", &x[..1], x), _ => format!("{}_undefined", &x[..1]) };
      if w.chars().count() < 2 || w == "epsilon" { w = format!("{}_undefined", &x[..1]) }
      while all.contains(&w) { w.push('q') }
      w
    };
    let mut name = String::new();
    for d in &mut g.defs { if let Def::Rule(_, b) = d { if swap_ref(b, &mut k, &mut |a| { *a = match &*a { Atom::Tok(n) => { name = near(n, &tn); Atom::Tok(name.clone()) }, Atom::Rule(n) => { name = near(n, &rn); Atom::Rule(name.clone()) }, x => x.clone() } }) { break } } }
    lost = name;
    c.label("reference to an undefined name");
  } else {
    // a definition that is referred to goes missing
    let mut used: Vec<String> = vec![];
    for d in &g.defs { if let Def::Rule(_, b) = d { let mut k = 0; let n = refs(b); let mut b = b.clone(); while k < n { let mut i = k; swap_ref(&mut b, &mut i, &mut |a| if let Atom::Tok(n) | Atom::Rule(n) = a { used.push(n.clone()) }); k += 1 } } }
    used.sort(); used.dedup();
    lost = s.pick(&used).clone();
    let l = lost.clone();
    g.defs.retain(|d| match d { Def::Rule(n, _) => *n != l, Def::Token(n, _) => *n != l });
    // it may have been referred to only by itself
    let still = g.defs.iter().any(|d| if let Def::Rule(_, b) = d { let n = refs(b); let mut b = b.clone(); (0..n).any(|k| { let mut i = k; let mut hit = false; swap_ref(&mut b, &mut i, &mut |a| if let Atom::Tok(n) | Atom::Rule(n) = a { hit |= *n == l }); hit }) } else { false });
    if !still { c.label("nothing to break"); return Ok(()) }
    c.label("definition removed");
  }
  c.case(format!("undefined {} in\n{}", lost, g.show()));
  c.label_if(text, "through the text front end");
  let tree = if text { let (t, _) = write_text(&g, s, Layout::Normal, false); remap(&parse_v1(&t)?.0) } else { tree_old(&g) };
  cap_reset();
  match build(&tree) {
    Err(_) => { cap_reset(); c.label("refused") },
    Ok(b) => { if !format!("{}{}", b.printed_symbols, b.printed).contains(lost.as_str()) { return Err(format!("{} is referred to and defined nowhere, yet the grammar is built without a word about it", lost)) } c.label("reported") },
  }
  c.nontrivial = total >= 3;
  Ok(())
}
