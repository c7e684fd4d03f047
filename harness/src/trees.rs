//! Random syntax trees and tree comparison.

use crate::engine::Source;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::{Position, Token};

pub fn same_token(a: &Token, b: &Token) -> bool {
  a.token_type == b.token_type && a.token_name == b.token_name && a.text == b.text && a.channel == b.channel && a.token_index == b.token_index
    && a.char_start_index == b.char_start_index && a.char_stop_index == b.char_stop_index
    && a.start.line == b.start.line && a.start.char_position == b.start.char_position
    && a.stop.line == b.stop.line && a.stop.char_position == b.stop.char_position
}

/// Ok or the path of the first difference; `pos`: compare positions of tokens too
pub fn diff(a: &RuleContext, b: &RuleContext, pos: bool) -> Result<(), String> {
  let mut stack: Vec<(&RuleContext, &RuleContext, String)> = vec![(a, b, a.rule_name.clone())];
  while let Some((a, b, path)) = stack.pop() {
    if a.rule_index != b.rule_index || a.rule_name != b.rule_name { return Err(format!("at {}: rule {}#{} vs {}#{}", path, a.rule_name, a.rule_index, b.rule_name, b.rule_index)); }
    if a.children.len() != b.children.len() { return Err(format!("at {}: {} children vs {}", path, a.children.len(), b.children.len())); }
    for (i, (x, y)) in a.children.iter().zip(b.children.iter()).enumerate() {
      match (x, y) {
        (ASTContext::Rule(x), ASTContext::Rule(y)) => stack.push((x, y, if path.len() > 2000 { "(deep inside)".into() } else { format!("{}/{}:{}", path, i, x.rule_name) })),
        (ASTContext::Terminal(x), ASTContext::Terminal(y)) => tok(&x.symbol, &y.symbol, pos, &path, i)?,
        (ASTContext::Error(x), ASTContext::Error(y)) => tok(&x.symbol, &y.symbol, pos, &path, i)?,
        _ => return Err(format!("at {}/{}: different kinds of node", path, i)),
      }
    }
  }
  Ok(())
}
fn tok(a: &Token, b: &Token, pos: bool, path: &str, i: usize) -> Result<(), String> {
  let ok = if pos { same_token(a, b) } else { a.token_type == b.token_type && a.token_name == b.token_name && a.text == b.text };
  if ok { Ok(()) } else { Err(format!("at {}/{}: token {} vs {}", path, i, a, b)) }
}

pub fn show(a: &RuleContext) -> String {
  let mut o = format!("{}#{}(", a.rule_name, a.rule_index);
  for (i, c) in a.children.iter().enumerate() {
    if i > 0 { o.push(' ') }
    match c { ASTContext::Rule(r) => o.push_str(&show(r)), ASTContext::Terminal(t) => o.push_str(&format!("{}:{:?}", t.symbol.token_type, t.symbol.text)), ASTContext::Error(t) => o.push_str(&format!("!{}:{:?}", t.symbol.token_type, t.symbol.text)) }
  }
  o.push(')');
  o
}
pub fn count(a: &RuleContext) -> usize { 1 + a.children.iter().map(|c| match c { ASTContext::Rule(r) => count(r), _ => 1 }).sum::<usize>() }
pub fn depth(a: &RuleContext) -> usize { 1 + a.children.iter().map(|c| match c { ASTContext::Rule(r) => depth(r), _ => 0 }).max().unwrap_or(0) }
pub fn has_error(a: &RuleContext) -> bool { a.children.iter().any(|c| match c { ASTContext::Rule(r) => has_error(r), ASTContext::Error(_) => true, _ => false }) }

pub struct TreeOpts { pub errors: bool, pub rule_ids: usize, pub tok_types: usize, pub max_depth: usize, pub wild_text: bool, pub ident_names: bool }

pub fn any_text(s: &mut Source, max: usize) -> String {
  let mut r = String::new();
  if s.chance(1, if s.has_fresh_strs() { 8 } else { 60 }) {
    let d = s.dict_str();
    match s.usize_below(3) { 0 | 1 => return d.to_string(), _ => r.push_str(d) }
  }
  let n = s.size(5, max);
  for _ in 0..n {
    if s.chance(1, 6) {
      let t = *s.pick(&["${", "${x}", "`", "\\", "</script>", "<!--", "-->", "<script>", "{{ name }}", "{% raw %}", "\r\n", "\r", "\n", "\"", "'", "&amp;", "&", "<", ">", "\\u", "\\x", "\\`", "$", "{", "}", "//", "/*", "\u{2028}", "\u{2029}", "\0", "</SCRIPT ", "<SCRIPT", "]]>", "const ast = 1;", "</title>", "\\u{41}", "\t"]);
      r.push_str(t);
    } else { let c = crate::lexmodel::any_char(s); r.push(c); }
  }
  r
}

pub fn gen_token(s: &mut Source, o: &TreeOpts) -> Token {
  let ty = match s.weighted(&[40, 3, 1]) { 0 => s.usize_below(o.tok_types), 2 => s.special(usize::MAX >> 12), _ => 1000 + s.usize_below(100000) };
  let name = if o.ident_names { let u = s.chance(1, 2); crate::lexmodel::word(s, u, 10) } else { any_text(s, 30) };
  let text = if s.chance(1, 8) { s.pick(&["", "_STOP", "_START", "ε", "x", " ", "0", "error", "<missing>"]).to_string() } else if o.wild_text { let m = if s.chance(1, 20) { 300 } else if s.chance(1, 400) { 20000 } else { 12 }; any_text(s, m) } else { crate::lexmodel::word(s, false, 10) };
  // the shape tokens made by `Token::new` have: every position zero
  if s.chance(1, 6) { return crate::trees::tok0(ty, &name, &text) }
  Token { token_type: ty, token_name: name, start: Position { line: s.usize_below(5), char_position: s.usize_below(9) }, stop: Position { line: s.usize_below(9), char_position: s.usize_below(9) },
    channel: s.usize_below(2), text, token_index: s.usize_below(50), char_start_index: s.usize_below(50), char_stop_index: s.usize_below(90) }
}

pub fn gen_tree(s: &mut Source, o: &TreeOpts) -> RuleContext {
  let budget = match s.weighted(&[560, 40, 1]) { 0 => 25, 1 => 400, _ => 6000 };
  let mut b = budget as isize;
  gen_rule(s, o, o.max_depth, &mut b)
}
fn gen_rule(s: &mut Source, o: &TreeOpts, d: usize, b: &mut isize) -> RuleContext {
  *b -= 1;
  let idx = match s.weighted(&[24, 4, 1, 1]) { 0 => s.usize_below(o.rule_ids), 1 => 9 + s.usize_below(5), 2 => s.special(usize::MAX >> 12), _ => s.usize_below(1_000_000) };
  let name = if o.ident_names { crate::lexmodel::word(s, false, 10) } else { any_text(s, 20) };
  // a chain of single children sometimes, to reach depth
  let n = if d > 1 && s.chance(1, 8) { 1 } else if s.chance(1, 150) { s.range(30, 600) } else { s.size(4, 30) };
  let mut ch: Vec<ASTContext> = Vec::new();
  for _ in 0..n {
    if *b <= 0 { break; }
    // the same leaf again: as it was, or as the other kind of leaf
    if !ch.is_empty() && s.chance(1, 10) {
      let again = match &ch[s.usize_below(ch.len())] { ASTContext::Terminal(t) => Some(t.symbol.clone()), ASTContext::Error(e) => Some(e.symbol.clone()), _ => None };
      if let Some(k) = again { *b -= 1; ch.push(if o.errors && s.chance(1, 3) { ASTContext::Error(ErrorContext { symbol: k }) } else { ASTContext::Terminal(TerminalContext { symbol: k }) }); continue; }
    }
    match s.weighted(&[5, if d > 0 { 6 } else { 0 }, if o.errors { 1 } else { 0 }]) {
      0 => { *b -= 1; ch.push(ASTContext::Terminal(TerminalContext { symbol: gen_token(s, o) })) },
      1 => ch.push(ASTContext::Rule(gen_rule(s, o, d - 1, b))),
      _ => { *b -= 1; ch.push(ASTContext::Error(ErrorContext { symbol: gen_token(s, o) })) },
    }
  }
  RuleContext { rule_name: name, rule_index: idx, children: ch }
}

/// gives some nodes numbers that equal small ones modulo 2^8, 2^16, 2^32, 2^53
pub fn alias_ids(s: &mut Source, t: &mut RuleContext) {
  if !s.chance(1, 5) { return; }
  fn one(s: &mut Source, n: usize) -> usize {
    if !s.chance(1, 3) { return n; }
    let small = n % 32;
    match s.weighted(&[8, 1, 1]) { 0 => small + (1usize << *s.pick(&[8u32, 16, 32, 5, 6, 7, 31, 33, 48, 53, 63])), 1 => usize::MAX - small, _ => *s.pick(&[255usize, 65535, u32::MAX as usize, i64::MAX as usize, (1 << 53) + 1]) }
  }
  fn go(s: &mut Source, t: &mut RuleContext) {
    t.rule_index = one(s, t.rule_index);
    for c in &mut t.children { match c { ASTContext::Rule(r) => go(s, r), ASTContext::Terminal(x) => x.symbol.token_type = one(s, x.symbol.token_type), ASTContext::Error(x) => x.symbol.token_type = one(s, x.symbol.token_type) } }
  }
  go(s, t);
}

/// leaves in order: (token, is_error)
pub fn leaves<'a>(a: &'a RuleContext, out: &mut Vec<(&'a Token, bool)>) {
  for c in &a.children { match c { ASTContext::Rule(r) => leaves(r, out), ASTContext::Terminal(t) => out.push((&t.symbol, false)), ASTContext::Error(e) => out.push((&e.symbol, true)) } }
}
/// all rule nodes in preorder
pub fn rules<'a>(a: &'a RuleContext, out: &mut Vec<&'a RuleContext>) { out.push(a); for c in &a.children { if let ASTContext::Rule(r) = c { rules(r, out) } } }

/// rarely: a chain of up to 2000 nodes above the tree
pub fn deepen(s: &mut Source, t: RuleContext) -> RuleContext {
  if !s.chance(1, 1500) { return t; }
  let d = match s.usize_below(3) { 0 => s.range(60, 300), 1 => s.range(300, 700), _ => s.range(700, 2000) };
  let (id, leaf) = (s.usize_below(10), s.chance(1, 2));
  let mut t = t;
  for i in 0..d {
    let mut c = vec![ASTContext::Rule(t)];
    if leaf && i % 50 == 7 { c.push(ASTContext::Terminal(TerminalContext { symbol: crate::trees::tok0(2 + i % 5, "LINK", "link") })) }
    t = RuleContext { rule_name: "chain".into(), rule_index: (id + i) % 11, children: c };
  }
  t
}
/// the shape `Token::new` gives: no positions, channel 0
pub fn tok0(ty: usize, name: &str, text: &str) -> Token {
  let p = || Position { line: 0, char_position: 0 };
  Token { token_type: ty, token_name: name.to_string(), text: text.to_string(), channel: 0, token_index: 0, char_start_index: 0, char_stop_index: 0, start: p(), stop: p() }
}
