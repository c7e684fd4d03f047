//! C15 C18 C19 C25: loading, queries, spans, printing of syntax trees.
use crate::engine::*;
use crate::lexmodel;
use crate::trees::{self, *};
use serde_json::Value;
use std::io::Read;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::{Position, Token};
use syntaxis::tool::serde_ast;

// ------------------------------------------------------------------ C15

/// JSON text values of our own
#[derive(Clone, Debug)]
enum J { Null, Bool(bool), Raw(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

fn jstr(s: &mut Source, x: &str, esc: bool) -> String {
  let mut o = String::from("\"");
  for c in x.chars() {
    if c == '"' || c == '\\' { o.push('\\'); o.push(c) }
    else if (c as u32) < 0x20 { match c { '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), '\x08' => o.push_str("\\b"), '\x0c' => o.push_str("\\f"), _ => o.push_str(&format!("\\u{:04x}", c as u32)) } }
    else if c == '/' && esc { o.push_str("\\/") }
    else if esc && s.chance(1, 6) { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04X}", u)) } }
    else { o.push(c) }
  }
  o.push('"');
  o
}
fn jprint(s: &mut Source, j: &J, o: &mut String, ws: bool, esc: bool) {
  let gap = |s: &mut Source, o: &mut String| if ws { let t = *s.pick(&["", " ", "\n", "\t", "  ", "\r\n"]); o.push_str(t) };
  gap(s, o);
  match j {
    J::Null => o.push_str("null"), J::Bool(b) => o.push_str(if *b { "true" } else { "false" }), J::Raw(r) => o.push_str(r),
    J::Str(x) => { let t = jstr(s, x, esc); o.push_str(&t) },
    J::Arr(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } jprint(s, x, o, ws, esc) } gap(s, o); o.push(']') },
    J::Obj(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } gap(s, o); let t = jstr(s, k, false); o.push_str(&t); gap(s, o); o.push(':'); jprint(s, x, o, ws, esc) } gap(s, o); o.push('}') },
  }
  gap(s, o);
}
/// a tree in the documented shape, plainly written
pub fn json_of(t: &RuleContext) -> String {
  fn v(t: &RuleContext) -> Value { serde_json::json!({ "rule_index": t.rule_index, "rule_name": t.rule_name, "children": t.children.iter().map(|c| match c { ASTContext::Rule(r) => v(r), ASTContext::Terminal(x) => serde_json::json!({ "token_type": x.symbol.token_type, "token_name": x.symbol.token_name, "text": x.symbol.text }), ASTContext::Error(_) => Value::Null }).collect::<Vec<_>>() }) }
  v(t).to_string()
}
fn jtree(s: &mut Source, t: &RuleContext, shuffle: bool, omit: bool, exp: &mut RuleContext) -> J {
  let mut ch = vec![];
  exp.rule_name = t.rule_name.clone(); exp.rule_index = t.rule_index;
  for c in &t.children {
    match c {
      ASTContext::Rule(r) => { let mut e = RuleContext { rule_name: String::new(), rule_index: 0, children: vec![] }; ch.push(jtree(s, r, shuffle, omit, &mut e)); exp.children.push(ASTContext::Rule(e)) },
      ASTContext::Terminal(TerminalContext { symbol: k }) | ASTContext::Error(ErrorContext { symbol: k }) => {
        let mut f = vec![("token_type".to_string(), J::Raw(k.token_type.to_string())), ("token_name".to_string(), J::Str(k.token_name.clone()))];
        let mut text = "<no text>".to_string();
        if !(omit && s.chance(1, 4)) { f.push(("text".into(), J::Str(k.text.clone()))); text = k.text.clone(); }
        if shuffle { s.shuffle(&mut f) }
        ch.push(J::Obj(f));
        exp.children.push(ASTContext::Terminal(TerminalContext { symbol: crate::trees::tok0(k.token_type, &k.token_name, &text) }));
      },
    }
  }
  let mut f = vec![("rule_index".to_string(), J::Raw(t.rule_index.to_string())), ("rule_name".to_string(), J::Str(t.rule_name.clone())), ("children".to_string(), J::Arr(ch))];
  if shuffle { s.shuffle(&mut f) }
  J::Obj(f)
}

enum Verdict { Tree(RuleContext), Error, Open }

fn exact_keys(m: &serde_json::Map<String, Value>, req: &[&str], opt: &[&str]) -> bool { m.keys().all(|k| req.contains(&k.as_str()) || opt.contains(&k.as_str())) }
/// id: Ok(n), Err(true)=definitely wrong, Err(false)=open (integral number in floating form)
fn id(v: Option<&Value>) -> Result<usize, bool> {
  match v {
    Some(Value::Number(n)) => if let Some(u) = n.as_u64() { Ok(u as usize) } else if n.as_i64().is_some() { Err(true) } else { let f = n.as_f64().unwrap_or(0.5); Err(!(f.fract() == 0.0 && f >= 0.0)) },
    _ => Err(true),
  }
}
/// The documented shape: rules {rule_index, rule_name, children:[...]}, tokens {token_type, token_name, text?}.
fn verdict(v: &Value, top: bool) -> Verdict {
  let m = match v { Value::Object(m) => m, _ => return Verdict::Error };
  let is_rule = m.contains_key("children") && !m["children"].is_null();
  if !is_rule {
    if top { return Verdict::Error; }
    let ty = id(m.get("token_type"));
    let name = m.get("token_name").and_then(|x| x.as_str());
    if matches!(ty, Err(true)) || name.is_none() { return Verdict::Error; }
    if ty.is_err() || m.contains_key("children") || !exact_keys(m, &["token_type", "token_name"], &["text"]) { return Verdict::Open; }
    let text = match m.get("text") { None => "<no text>", Some(Value::String(x)) => x.as_str(), _ => return Verdict::Open };
    return Verdict::Tree(RuleContext { rule_name: String::new(), rule_index: 0, children: vec![ASTContext::Terminal(TerminalContext { symbol: crate::trees::tok0(ty.unwrap(), name.unwrap(), text) })] });
  }
  let arr = match &m["children"] { Value::Array(a) => a, _ => return Verdict::Error };
  let idx = id(m.get("rule_index"));
  let name = m.get("rule_name").and_then(|x| x.as_str());
  if matches!(idx, Err(true)) || name.is_none() { return Verdict::Error; }
  let mut open = idx.is_err() || !exact_keys(m, &["children", "rule_index", "rule_name"], &[]);
  let mut ch = vec![];
  for x in arr {
    match verdict(x, false) {
      Verdict::Error => return Verdict::Error,
      Verdict::Open => open = true,
      Verdict::Tree(mut r) => if x.get("children").is_some() { ch.push(ASTContext::Rule(r)) } else { ch.push(r.children.pop().unwrap()) },
    }
  }
  if open { return Verdict::Open; }
  Verdict::Tree(RuleContext { rule_name: name.unwrap().to_string(), rule_index: idx.unwrap(), children: ch })
}

/// reader delivering odd chunks, spurious interruptions, and optionally failing part-way
struct Chunks<'a> { data: &'a [u8], sizes: Vec<usize>, i: usize, fail_at: Option<usize>, pos: usize }
impl Read for Chunks<'_> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    self.i += 1;
    let k = self.sizes[self.i % self.sizes.len()];
    if k == 0 { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
    if let Some(f) = self.fail_at { if self.pos >= f { return Err(std::io::Error::new(std::io::ErrorKind::Other, "boom")); } }
    let n = k.min(buf.len()).min(self.data.len() - self.pos);
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

fn mutate_j(s: &mut Source, j: &mut J) {
  // walk to a random node, then damage it
  fn nodes(j: &J) -> usize { 1 + match j { J::Arr(v) => v.iter().map(nodes).sum(), J::Obj(v) => v.iter().map(|x| nodes(&x.1)).sum(), _ => 0 } }
  fn at<'a>(j: &'a mut J, k: &mut usize) -> Option<&'a mut J> {
    if *k == 0 { return Some(j); }
    *k -= 1;
    match j { J::Arr(v) => { for x in v { if let Some(r) = at(x, k) { return Some(r); } } None }, J::Obj(v) => { for x in v { if let Some(r) = at(&mut x.1, k) { return Some(r); } } None }, _ => None }
  }
  let mut k = s.usize_below(nodes(j));
  let n = match at(j, &mut k) { Some(n) => n, None => return };
  match s.usize_below(5) {
    0 => if let J::Obj(v) = n { if !v.is_empty() { let i = s.usize_below(v.len()); v.remove(i); return } },
    1 => if let J::Obj(v) = n { if !v.is_empty() { let i = s.usize_below(v.len()); let t = *s.pick(&["Children", "rule_idx", "type", "name", "txt", ""]); v[i].0 = t.into(); return } },
    // a member too many: a token that has children which are no list, and the like
    4 if s.chance(1, 2) => if let J::Obj(v) = n {
      let k = *s.pick(&["children", "children", "text", "rule_index", "rule_name", "token_type", "token_name"]);
      if !v.iter().any(|x| x.0 == k) {
        let x = match s.usize_below(6) { 0 => J::Bool(false), 1 => J::Raw("0".into()), 2 => J::Str("".into()), 3 => J::Obj(vec![]), 4 => J::Str("[]".into()), _ => J::Raw("7".into()) };
        let i = s.usize_below(v.len() + 1);
        v.insert(i, (k.into(), x));
        return;
      }
    },
    2 => if let J::Arr(v) = n { let x = J::Arr(vec![]); let i = s.usize_below(v.len() + 1); v.insert(i, x); return },
    _ => {},
  }
  *n = match s.usize_below(9) {
    0 => J::Null, 1 => J::Bool(true), 2 => J::Raw("-1".into()), 3 => J::Raw("1.5".into()), 4 => J::Raw("18446744073709551616".into()), 5 => J::Str("7".into()), 6 => J::Arr(vec![]), 7 => J::Obj(vec![]), _ => J::Raw("-9223372036854775808".into()),
  };
}

pub fn c15(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let o = TreeOpts { errors: false, rule_ids: 9, tok_types: 25, max_depth: if s.chance(1, 10) { 55 } else { 6 }, wild_text: true, ident_names: s.chance(1, 3) };
  let mut t = gen_tree(s, &o);
  if s.chance(1, 25) { // a deep chain
    let d = s.range(10, 50);
    for _ in 0..d { let mut p = RuleContext { rule_name: t.rule_name.clone(), rule_index: t.rule_index, children: vec![] }; p.children.push(ASTContext::Rule(t)); t = p; }
  }
  if trees::depth(&t) > 60 { return Ok(()); }
  // rarely: a document of one to three megabytes
  if s.chance(1, 4000) {
    let n = s.range(200, 1500);
    for i in 0..n { t.children.push(ASTContext::Terminal(TerminalContext { symbol: crate::trees::tok0(i, "FILLER", &"large document ".repeat(120)) })) }
    c.label("document of megabytes");
  }
  if s.chance(1, 20) { t.rule_index = usize::MAX - s.usize_below(3) }
  trees::alias_ids(s, &mut t);
  let mut exp = RuleContext { rule_name: String::new(), rule_index: 0, children: vec![] };
  let (sh, om) = (s.chance(1, 2), s.chance(1, 2));
  let mut j = jtree(s, &t, sh, om, &mut exp);
  let kind = s.weighted(&[4, 4, 2, 1]);
  if kind == 1 { let n = 1 + s.usize_below(2); for _ in 0..n { mutate_j(s, &mut j) } }
  let mut text = String::new();
  let (ws, esc) = (s.chance(1, 2), s.chance(1, 2));
  jprint(s, &j, &mut text, ws, esc);
  if kind == 2 {
    let n = 1 + s.usize_below(2);
    for _ in 0..n {
      let mut cs: Vec<char> = text.chars().collect();
      match s.usize_below(5) {
        0 if !cs.is_empty() => { let i = s.usize_below(cs.len()); cs.remove(i); },
        1 => { let i = s.usize_below(cs.len() + 1); let x = *s.pick(&['{', '}', '[', ']', ',', ':', '"', '0', '-', '\\', 'x', '\u{feff}', '\0', '.']); cs.insert(i, x) },
        2 => { let n = s.usize_below(cs.len() + 1); cs.truncate(n) },
        3 => { let x = *s.pick(&["{}", "1", "]", "}", "null", "\"a\"", ","]); cs.extend(x.chars()) },
        _ if cs.len() >= 2 => { let i = s.usize_below(cs.len() - 1); cs.swap(i, i + 1) },
        _ => {},
      }
      text = cs.into_iter().collect();
    }
  }
  let mut bytes = text.clone().into_bytes();
  let utf8_broken = kind == 3 && !bytes.is_empty();
  if utf8_broken { let i = s.usize_below(bytes.len()); bytes[i] = 0xff; }
  c.case(if utf8_broken { format!("bytes {:?}", String::from_utf8_lossy(&bytes)) } else { text.clone() });
  c.label(["well-formed tree", "damaged structure", "damaged text", "invalid utf-8"][kind]);
  let exp = match kind {
    0 => Verdict::Tree(exp),
    3 if utf8_broken => Verdict::Error,
    _ => match serde_json::from_str::<Value>(&text) { Err(_) => Verdict::Error, Ok(v) => verdict(&v, true) },
  };
  // readers
  let sizes: Vec<usize> = { let n = 1 + s.usize_below(4); let mut v: Vec<usize> = (0..n).map(|_| s.size(4, 9000)).collect(); if v.iter().all(|x| *x == 0) { v.push(3) } v };
  let fail_at = if s.chance(1, 8) { Some(s.usize_below(bytes.len() + 1)) } else { None };
  let rd = Chunks { data: &bytes, sizes: sizes.clone(), i: 0, fail_at: None, pos: 0 };
  let r2 = imp("from_reader", || serde_ast::from_reader(rd))?;
  let r1 = if utf8_broken { Err(serde_ast::Error) } else { imp("from_str", || serde_ast::from_str(&text))? };
  match (&r1, &r2) {
    (Ok(a), Ok(b)) => diff(a, b, true).map_err(|e| format!("from_str and from_reader disagree: {}", e))?,
    (Err(_), Err(_)) => {},
    _ => return Err(format!("from_str {} but from_reader {}", if r1.is_ok() { "succeeds" } else { "fails" }, if r2.is_ok() { "succeeds" } else { "fails" })),
  }
  match (&exp, &r1) {
    (Verdict::Tree(e), Ok(g)) => { diff(g, e, false).map_err(|x| format!("loaded tree differs: {}", x))?; c.label("loads"); c.nontrivial = count(e) >= 3 },
    (Verdict::Tree(_), Err(_)) => return Err("a tree in the documented shape is rejected".into()),
    (Verdict::Error, Ok(g)) => return Err(format!("invalid input is accepted as {}", trees::show(g))),
    (Verdict::Error, Err(_)) => { c.label("rejected"); c.nontrivial = text.len() > 30 },
    (Verdict::Open, _) => c.label("unspecified input (agreement only)"),
  }
  if let Some(f) = fail_at {
    let rd = Chunks { data: &bytes, sizes, i: 0, fail_at: Some(f), pos: 0 };
    c.label("failing reader");
    if imp("from_reader", || serde_ast::from_reader(rd))?.is_ok() { return Err(format!("a reader failing after {} bytes still gives a tree", f)); }
  }
  Ok(())
}

// ------------------------------------------------------------------ C18

macro_rules! accessor_checks {
  ($fam:ident, $modp:path, $nums:expr, $what:expr) => {
    fn $fam(n: &RuleContext) -> Result<(), String> {
      use $modp as m;
      use crate::ebnf::Nums;
      let nums: Nums = $nums;
      let ts = |name: &str| -> Vec<&TerminalContext> { let ty = nums.of(name); n.children.iter().filter_map(|c| match c { ASTContext::Terminal(t) if t.symbol.token_type == ty => Some(t), _ => None }).collect() };
      let rs = |idx: usize| -> Vec<&RuleContext> { n.children.iter().filter_map(|c| match c { ASTContext::Rule(r) if r.rule_index == idx => Some(r), _ => None }).collect() };
      let one_t = |what: &str, got: Option<&TerminalContext>, name: &str| -> Result<(), String> { let e = ts(name).first().copied(); if got.map(|x| x as *const _) == e.map(|x| x as *const _) { Ok(()) } else { Err(format!("{} {} returns {:?}, first {} child is {:?}", $what, what, got.map(|x| x.symbol.to_string()), name, e.map(|x| x.symbol.to_string()))) } };
      let all_t = |what: &str, got: Vec<&TerminalContext>, name: &str| -> Result<(), String> { let e: Vec<*const TerminalContext> = ts(name).into_iter().map(|x| x as *const _).collect(); if got.iter().map(|x| *x as *const TerminalContext).collect::<Vec<_>>() == e { Ok(()) } else { Err(format!("{} {} returns {} children, there are {}", $what, what, got.len(), e.len())) } };
      let one_r = |what: &str, got: Option<&RuleContext>, idx: usize| -> Result<(), String> { let e = rs(idx).first().copied(); if got.map(|x| x as *const _) == e.map(|x| x as *const _) { Ok(()) } else { Err(format!("{} {} returns {:?}, first child of rule {} is {:?}", $what, what, got.map(trees::show), idx, e.map(trees::show))) } };
      let all_r = |what: &str, got: Vec<&RuleContext>, idx: usize| -> Result<(), String> { let e: Vec<*const RuleContext> = rs(idx).into_iter().map(|x| x as *const _).collect(); if got.iter().map(|x| *x as *const RuleContext).collect::<Vec<_>>() == e { Ok(()) } else { Err(format!("{} {} returns {} children, there are {}", $what, what, got.len(), e.len())) } };
      all_r("rule_list.parser_rule_list", imp("parser_rule_list", || m::RuleListContext::parser_rule_list(n).into_iter().map(|x| x.as_rule()).collect())?, 1)?;
      all_r("rule_list.lexer_rule_list", imp("lexer_rule_list", || m::RuleListContext::lexer_rule_list(n).into_iter().map(|x| x.as_rule()).collect())?, 7)?;
      one_t("parser_rule.rule_ref", m::ParserRuleContext::rule_ref(n), "RULE_REF")?;
      one_t("parser_rule.colon", m::ParserRuleContext::colon(n), "COLON")?;
      one_r("parser_rule.block", m::ParserRuleContext::block(n).map(|x| x.as_rule()), 2)?;
      one_t("parser_rule.semi", m::ParserRuleContext::semi(n), "SEMI")?;
      all_r("block.alternative_list", m::BlockContext::alternative_list(n).into_iter().map(|x| x.as_rule()).collect(), 3)?;
      all_t("block.or_list", m::BlockContext::or_list(n), "OR")?;
      all_r("alternative.element_list", m::AlternativeContext::element_list(n).into_iter().map(|x| x.as_rule()).collect(), 5)?;
      one_r("alternative.epsilon", m::AlternativeContext::epsilon(n).map(|x| x.as_rule()), 4)?;
      one_t("epsilon.epsilon", m::EpsilonContext::epsilon(n), "EPSILON")?;
      one_t("element.token_ref", m::ElementContext::token_ref(n), "TOKEN_REF")?;
      one_t("element.string_literal", m::ElementContext::string_literal(n), "STRING_LITERAL")?;
      one_t("element.rule_ref", m::ElementContext::rule_ref(n), "RULE_REF")?;
      one_t("element.lparen", m::ElementContext::lparen(n), "LPAREN")?;
      one_t("element.rparen", m::ElementContext::rparen(n), "RPAREN")?;
      one_r("element.block", m::ElementContext::block(n).map(|x| x.as_rule()), 2)?;
      one_r("element.ebnf_suffix", m::ElementContext::ebnf_suffix(n).map(|x| x.as_rule()), 6)?;
      one_t("ebnf_suffix.star", m::EbnfSuffixContext::star(n), "STAR")?;
      one_t("ebnf_suffix.plus", m::EbnfSuffixContext::plus(n), "PLUS")?;
      all_t("ebnf_suffix.question_list", m::EbnfSuffixContext::question_list(n), "QUESTION")?;
      one_t("lexer_rule.token_ref", m::LexerRuleContext::token_ref(n), "TOKEN_REF")?;
      one_t("lexer_rule.colon", m::LexerRuleContext::colon(n), "COLON")?;
      one_t("lexer_rule.semi", m::LexerRuleContext::semi(n), "SEMI")?;
      one_r("lexer_rule.regular", m::LexerRuleContext::regular(n).map(|x| x.as_rule()), 8)?;
      one_t("regular.regular_literal", m::RegularContext::regular_literal(n), "REGULAR_LITERAL")?;
      Ok(())
    }
  };
}
accessor_checks!(acc_old, syntaxis::tool::syntaxis::syntaxis_context, Nums::OLD, "hand-written");
accessor_checks!(acc_v1, syntaxis::tool::v1::syntaxis_context, Nums::V1, "v1");

pub fn c18(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let o = TreeOpts { errors: true, rule_ids: 9, tok_types: 23, max_depth: 4, wild_text: false, ident_names: true };
  let mut t = gen_tree(s, &o);
  // dense node: many children of few kinds
  if s.chance(1, 2) {
    let n = s.size(10, 120);
    for _ in 0..n {
      let ty = s.usize_below(24);
      let k = s.usize_below(3);
      let mut tk = gen_token(s, &o); tk.token_type = ty;
      let ch = match k { 0 => ASTContext::Terminal(TerminalContext { symbol: tk }), 1 => ASTContext::Error(ErrorContext { symbol: tk }), _ => ASTContext::Rule(RuleContext { rule_name: "rr".into(), rule_index: s.usize_below(10), children: vec![] }) };
      let i = s.usize_below(t.children.len() + 1);
      t.children.insert(i, ch);
    }
  }
  // very many children of one kind
  if s.chance(1, 600) {
    let (ty, k, n) = (s.usize_below(24), s.usize_below(3), s.range(100, 700));
    for _ in 0..n { t.children.push(match k { 0 => ASTContext::Terminal(TerminalContext { symbol: crate::trees::tok0(ty, "MANY", "m") }), 1 => ASTContext::Error(ErrorContext { symbol: crate::trees::tok0(ty, "MANY", "m") }), _ => ASTContext::Rule(RuleContext { rule_name: "rr".into(), rule_index: ty % 10, children: vec![] }) }) }
    c.label("more than a hundred children of one kind");
  }
  trees::alias_ids(s, &mut t);
  c.case(trees::show(&t));
  let mut ns = vec![]; trees::rules(&t, &mut ns);
  for n in ns.into_iter().take(40) {
    let mut keys: Vec<usize> = (0..25).collect();
    for ch in &n.children { keys.push(match ch { ASTContext::Rule(r) => r.rule_index, ASTContext::Terminal(x) => x.symbol.token_type, ASTContext::Error(x) => x.symbol.token_type }) }
    keys.sort(); keys.dedup();
    for k in keys {
      let et: Vec<*const TerminalContext> = n.children.iter().filter_map(|x| match x { ASTContext::Terminal(y) if y.symbol.token_type == k => Some(y as *const _), _ => None }).collect();
      let ee: Vec<*const ErrorContext> = n.children.iter().filter_map(|x| match x { ASTContext::Error(y) if y.symbol.token_type == k => Some(y as *const _), _ => None }).collect();
      let er: Vec<*const RuleContext> = n.children.iter().filter_map(|x| match x { ASTContext::Rule(y) if y.rule_index == k => Some(y as *const _), _ => None }).collect();
      if imp("get_terminals", || n.get_terminals(k).iter().map(|x| *x as *const _).collect::<Vec<_>>())? != et { return Err(format!("get_terminals({}) on {}", k, trees::show(n))); }
      if imp("get_errornodes", || n.get_errornodes(k).iter().map(|x| *x as *const _).collect::<Vec<_>>())? != ee { return Err(format!("get_errornodes({}) on {}", k, trees::show(n))); }
      if imp("get_rule_contexts", || n.get_rule_contexts(k).iter().map(|x| *x as *const _).collect::<Vec<_>>())? != er { return Err(format!("get_rule_contexts({}) on {}", k, trees::show(n))); }
      let top = et.len().max(ee.len()).max(er.len());
      for i in (0..top + 2).chain([usize::MAX]) {
        if imp("get_terminal", || n.get_terminal(k, i).map(|x| x as *const _))? != et.get(i).copied() { return Err(format!("get_terminal({}, {}) on {}", k, i, trees::show(n))); }
        if imp("get_errornode", || n.get_errornode(k, i).map(|x| x as *const _))? != ee.get(i).copied() { return Err(format!("get_errornode({}, {}) on {}", k, i, trees::show(n))); }
        if imp("get_rule_context", || n.get_rule_context(k, i).map(|x| x as *const _))? != er.get(i).copied() { return Err(format!("get_rule_context({}, {}) on {}", k, i, trees::show(n))); }
        c.evals += 3;
      }
    }
    if n.get_child_count() != n.children.len() || n.get_children().len() != n.children.len() || n.get_rule_index() != n.rule_index { return Err("child count or rule index".into()); }
    acc_old(n)?;
    acc_v1(n)?;
  }
  c.label_if(trees::has_error(&t), "error nodes");
  c.nontrivial = count(&t) >= 5;
  Ok(())
}

// ------------------------------------------------------------------ C19

/// tree over a source text: leaves at increasing offsets with gaps
fn spanned(s: &mut Source, text: &mut String, d: usize, budget: &mut isize, idx: &mut usize) -> RuleContext {
  *budget -= 1;
  let n = s.size(3, 12);
  let mut ch = vec![];
  for _ in 0..n {
    if *budget <= 0 { break; }
    match s.weighted(&[5, if d > 0 { 6 } else { 0 }, 1, if d > 0 { 3 } else { 0 }]) {
      k @ (0 | 2) => {
        *budget -= 1;
        if s.chance(1, 2) { let b = lexmodel::blank(s, true); text.push_str(&b) }
        let start = text.len();
        let m = if s.chance(1, 10) { 0 } else { 1 + s.usize_below(4) };
        for _ in 0..m { let x = lexmodel::any_char(s); text.push(x) }
        let stop = text.len();
        let (l1, c1) = lexmodel::line_col(text, start); let (l2, c2) = lexmodel::line_col(text, stop);
        let tk = Token { token_type: s.usize_below(20), token_name: "T".into(), start: Position { line: l1, char_position: c1 }, stop: Position { line: l2, char_position: c2 }, channel: 0, text: text[start..stop].to_string(), token_index: *idx, char_start_index: start, char_stop_index: stop };
        // a leaf need not spell its slice (the end marker does not)
        let tk = if s.chance(1, 10) { Token { text: if stop == start { "_STOP".into() } else { trees::any_text(s, 6) }, ..tk } } else { tk };
        *idx += 1;
        ch.push(if k == 0 { ASTContext::Terminal(TerminalContext { symbol: tk }) } else { ASTContext::Error(ErrorContext { symbol: tk }) });
      },
      1 => ch.push(ASTContext::Rule(spanned(s, text, d - 1, budget, idx))),
      _ => { // an empty rule, possibly nested
        let k = s.usize_below(3);
        let mut r = RuleContext { rule_name: "e".into(), rule_index: s.usize_below(9), children: vec![] };
        for _ in 0..k { let extra = s.usize_below(2); let mut p = RuleContext { rule_name: "e".into(), rule_index: s.usize_below(9), children: vec![] }; p.children.push(ASTContext::Rule(r)); for _ in 0..extra { p.children.push(ASTContext::Rule(RuleContext { rule_name: "e".into(), rule_index: 1, children: vec![] })) } r = p; }
        ch.push(ASTContext::Rule(r));
      },
    }
  }
  RuleContext { rule_name: "r".into(), rule_index: s.usize_below(9), children: ch }
}

pub fn c19(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let mut text = String::new();
  if s.chance(1, 2) { let b = lexmodel::blank(s, true); text.push_str(&b) }
  let mut b = if s.chance(1, 12) { 300 } else { 30 };
  let mut i = 0;
  let d = if s.chance(1, 10) { 40 } else { 5 };
  let t = spanned(s, &mut text, d, &mut b, &mut i);
  if s.chance(1, 2) { let b = lexmodel::blank(s, true); text.push_str(&b) }
  c.case(format!("{} over {:?}", trees::show(&t), text));
  let mut ns = vec![]; trees::rules(&t, &mut ns);
  let mut edge = false;
  for n in ns {
    c.evals += 1;
    let mut lv = vec![]; leaves(n, &mut lv);
    let st = imp("get_start_token", || n.get_start_token())?;
    let sp = imp("get_stop_token", || n.get_stop_token())?;
    let first = lv.first(); let last = lv.last();
    let eq = |a: &Option<Token>, b: Option<&(&Token, bool)>| match (a, b) { (None, None) => true, (Some(x), Some((y, _))) => same_token(x, y), _ => false };
    if !eq(&st, first) { return Err(format!("start token of {} is {:?}, first leaf is {:?}", trees::show(n), st.map(|x| x.to_string()), first.map(|x| x.0.to_string()))); }
    if !eq(&sp, last) { return Err(format!("stop token of {} is {:?}, last leaf is {:?}", trees::show(n), sp.map(|x| x.to_string()), last.map(|x| x.0.to_string()))); }
    let ft = imp("get_first_terminal", || n.get_first_terminal().cloned())?;
    let lt = imp("get_last_terminal", || n.get_last_terminal().cloned())?;
    for (what, got, leaf) in [("first", ft, first), ("last", lt, last)] {
      match leaf {
        None => if got.is_some() { return Err(format!("{} terminal of a node without leaves", what)) },
        Some((y, false)) => match got { Some(x) if same_token(&x.symbol, y) => {}, other => return Err(format!("{} terminal of {} is {:?}, the leaf is {}", what, trees::show(n), other.map(|x| x.symbol.to_string()), y)) },
        Some((_, true)) => {}, // an error node is no terminal; not specified further
      }
    }
    let exp = match (first, last) { (Some(a), Some(b)) => &text[a.0.char_start_index..b.0.char_stop_index], _ => "" };
    let got = imp("get_text", || n.get_text(&text))?;
    if got != exp { return Err(format!("text of {} is {:?}, it covers {:?}", trees::show(n), got, exp)); }
    if let (Some(ASTContext::Rule(r)), true) = (n.children.first(), !lv.is_empty()) { let mut v = vec![]; leaves(r, &mut v); edge |= v.is_empty() }
    for ch in &n.children { match ch { ASTContext::Terminal(x) => if x.get_text() != x.symbol.text { return Err("terminal text".into()) }, ASTContext::Error(x) => if x.get_text() != x.symbol.text { return Err("error node text".into()) }, _ => {} } }
  }
  c.label_if(edge, "empty node at an edge");
  c.label_if(trees::has_error(&t), "error leaves");
  c.nontrivial = i >= 2;
  Ok(())
}

// ------------------------------------------------------------------ C25

#[derive(Debug, PartialEq)]
enum Shape { Leaf(String), Node(String, Vec<Shape>) }
fn shape(t: &RuleContext) -> Shape {
  Shape::Node(t.rule_name.clone(), t.children.iter().map(|c| match c { ASTContext::Rule(r) => shape(r), ASTContext::Terminal(x) => Shape::Leaf(x.symbol.token_name.clone()), ASTContext::Error(x) => Shape::Leaf(x.symbol.token_name.clone()) }).collect())
}
fn read(t: &[String], i: &mut usize) -> Result<Shape, String> {
  let name = t.get(*i).cloned().ok_or("ends early")?;
  if name == "(" || name == ")" { return Err(format!("unexpected {}", name)); }
  *i += 1;
  if t.get(*i).map(|x| x == "(") != Some(true) { return Ok(Shape::Leaf(name)); }
  *i += 1;
  let mut ch = vec![];
  loop {
    match t.get(*i) { None => return Err("unclosed parenthesis".into()), Some(x) if x == ")" => { *i += 1; return Ok(Shape::Node(name, ch)) }, _ => ch.push(read(t, i)?) }
  }
}
fn read_tree(text: &str) -> Result<Shape, String> {
  let mut toks = vec![]; let mut cur = String::new();
  for ch in text.chars() {
    if ch == '(' || ch == ')' || ch.is_whitespace() { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)) } if !ch.is_whitespace() { toks.push(ch.to_string()) } } else { cur.push(ch) }
  }
  if !cur.is_empty() { toks.push(cur) }
  let mut i = 0;
  let r = read(&toks, &mut i)?;
  if i != toks.len() { return Err("trailing text".into()); }
  Ok(r)
}

pub fn c25(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let o = TreeOpts { errors: true, rule_ids: 9, tok_types: 23, max_depth: if s.chance(1, 12) { 60 } else { 5 }, wild_text: true, ident_names: true };
  let t = gen_tree(s, &o);
  c.case(trees::show(&t));
  let text = imp("printing a tree", || format!("{}", t))?;
  let got = read_tree(&text).map_err(|e| format!("{} in {:?}", e, text))?;
  if got != shape(&t) { return Err(format!("printed form {:?} does not read back to {}", text, trees::show(&t))); }
  // the same node printed as a child
  let w = imp("printing a node", || format!("{}", ASTContext::Rule(t.clone())))?;
  if read_tree(&w).ok() != Some(shape(&t)) { return Err(format!("printed node {:?}", w)); }
  c.nontrivial = count(&t) >= 4;
  // tokens: numbers are drawn large so that each is recognisable
  let mut tk = gen_token(s, &o);
  let big = |s: &mut Source| if s.chance(1, 4) { s.usize_below(12) } else { s.usize_below(1_000_000) };
  tk.token_type = big(s); tk.token_index = big(s); tk.char_start_index = big(s); tk.char_stop_index = big(s);
  tk.start = Position { line: big(s), char_position: big(s) }; tk.stop = Position { line: big(s), char_position: big(s) };
  tk.text = tk.text.chars().filter(|x| !x.is_ascii_digit()).collect();
  tk.token_name = tk.token_name.chars().filter(|x| !x.is_ascii_digit()).collect();
  let p = imp("printing a token", || format!("{}", tk))?;
  if !p.contains(&tk.text) { return Err(format!("printed token {:?} does not show the text {:?}", p, tk.text)); }
  if !p.contains(&tk.token_name) { return Err(format!("printed token {:?} does not show the name {:?}", p, tk.token_name)); }
  let nums: Vec<usize> = p.split(|x: char| !x.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
  let exp = vec![tk.token_index, tk.char_start_index, tk.char_stop_index, tk.token_type, tk.start.line, tk.start.char_position, tk.stop.line, tk.stop.char_position];
  if nums != exp { return Err(format!("printed token {:?} shows the numbers {:?}, the token has index, offsets, type, positions {:?}", p, nums, exp)); }
  // the same with digits in text and name, which are then taken out of the printed form; each position beside its label
  let t2 = Token { text: format!("\u{1}{}\u{2}", trees::any_text(s, 20).replace(['\u{1}', '\u{2}', '\u{3}', '\u{4}'], "")), token_name: format!("\u{3}{}\u{4}", trees::any_text(s, 12).replace(['\u{1}', '\u{2}', '\u{3}', '\u{4}'], "")), ..tk.clone() };
  let p = imp("printing a token", || format!("{}", t2))?;
  if !p.contains(&t2.text) || !p.contains(&t2.token_name) { return Err(format!("printed token {:?} does not show the text {:?} and the name {:?}", p, t2.text, t2.token_name)); }
  let q = p.replacen(&t2.text, "", 1).replacen(&t2.token_name, "", 1);
  let nums: Vec<usize> = q.split(|x: char| !x.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
  if nums != exp { return Err(format!("printed token {:?} shows the numbers {:?}, the token has index, offsets, type, positions {:?}", p, nums, exp)); }
  let w: Vec<&str> = q.split(|x: char| !x.is_ascii_alphabetic()).filter(|x| *x == "start" || *x == "stop").collect();
  if w != ["start", "stop"] { return Err(format!("printed token {:?} labels its positions {:?}", p, w)); }
  for (d, n) in [(format!("{}", TerminalContext { symbol: tk.clone() }), "terminal"), (format!("{}", ErrorContext { symbol: tk.clone() }), "error node"), (format!("{}", ASTContext::Terminal(TerminalContext { symbol: tk.clone() })), "leaf")] {
    if d.trim() != tk.token_name.trim() { return Err(format!("printed {} {:?}, its token is named {:?}", n, d, tk.token_name)); }
  }
  Ok(())
}
