//! C22 C23: patterns collected from string literals and token rules.
use crate::ebnf::*;
use crate::engine::*;
use crate::rx::{self, Rx};
use std::collections::BTreeSet;
use regex::Regex;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::SymbolVisitor;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleVisitor, StringLiteralVisitor};

/// (spelling with quotes, denoted text)
pub fn gen_literal(s: &mut Source) -> (String, String) {
  let n = match s.weighted(&[8, 3, 1]) { 0 => 1 + s.usize_below(4), 1 => if s.chance(1, 20) { s.range(30, 400) } else { s.size(6, 30) }, _ => 0 };
  let mut sp = String::from("'");
  let mut de = String::new();
  for _ in 0..n {
    match s.weighted(&[6, 6, 4, 2]) {
      0 => { let c = *s.pick(&['a', 'b', 'n', 't', 'r', 'f', 'v', 'd', 'u', '0', '1', 'A', ' ', 'x', '_']); sp.push(c); de.push(c) },
      1 => { let c = *s.pick(&['+', '*', '.', '?', '(', ')', '|', '[', ']', '{', '}', '^', '$', '/', '"', '#', '&', '-', '~', '<', '>', '=', ',', ':', ';', '`', '!', '%', '@']); sp.push(c); de.push(c) },
      2 => {
        let (e, c) = *s.pick(&[("\\\\", '\\'), ("\\'", '\''), ("\\a", '\x07'), ("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t'), ("\\f", '\x0c'), ("\\v", '\x0b')]);
        sp.push_str(e); de.push(c);
      },
      _ => {
        if s.chance(1, 2) {
          let c = *s.pick(&['A', 'é', '中', '\u{1f600}', '.', '\\', '\'', '+', '\0', '\u{7f}', '\n', 'z']);
          // now and then with leading zeros
          let most = if s.chance(1, 6) { 40 } else { 9 };
          let zeros = if s.chance(1, 3) { 1 + s.usize_below(most) } else { 0 };
          sp.push_str(&format!("\\u{{{}{}{:x}}}", if s.chance(1, 2) { "0x" } else { "" }, "0".repeat(zeros), c as u32)); de.push(c)
        } else { let c = *s.pick(&['é', '中', 'ε', '\u{1f600}', '\u{2028}']); sp.push(c); de.push(c) }
      },
    }
  }
  sp.push('\'');
  (sp, de)
}

fn lits_of(b: &Block, out: &mut Vec<String>) { for a in b { if let Alt::Seq(v) = a { for e in v { match &e.atom { Atom::Lit(l) => if !out.contains(l) { out.push(l.clone()) }, Atom::Group(b) => lits_of(b, out), _ => {} } } } } }
fn put_lits(b: &mut Block, s: &mut Source, pool: &[(String, String)]) {
  for a in b { if let Alt::Seq(v) = a { for e in v { match &mut e.atom { Atom::Group(b) => put_lits(b, s, pool), x => if s.chance(1, 2) { *x = Atom::Lit(s.pick(pool).0.clone()) } } } } }
}

pub fn c22(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let mut o = super::gram::opts(s, true, false);
  o.max_rules = o.max_rules.min(12); o.max_toks = o.max_toks.min(8);
  let mut g = gen_gram(s, &o);
  let mut pool: Vec<(String, String)> = vec![];
  let many = if s.chance(1, 40) { s.range(8, 60) } else { s.range(1, 7) };
  if many > 7 { o.max_rules = 12; g = gen_gram(s, &GenOpts { max_alts: 12, max_seq: 10, ..o }); c.label("pool of 8+ literals"); }
  for _ in 0..many {
    let l = gen_literal(s);
    // two spellings of one text: what then counts as "distinct" is open, so only one spelling is kept
    if !pool.iter().any(|(_, d)| *d == l.1) { pool.push(l) }
  }
  for d in &mut g.defs { if let Def::Rule(_, b) = d { put_lits(b, s, &pool) } }
  c.case(g.show());
  let mut exp = vec![];
  for d in &g.defs { if let Def::Rule(_, b) = d { lits_of(b, &mut exp) } }
  let tree = tree_old(&g);
  let v = imp("collecting string literals", || { let mut v = StringLiteralVisitor::new(); RuleListContext::accept(&tree, &mut v); v })?;
  if v.data.len() != exp.len() { return Err(format!("{} tokens collected for {} distinct literals {:?}", v.data.len(), exp.len(), exp)); }
  if v.next_token_type != exp.len() + 2 { return Err(format!("numbering continues at {}", v.next_token_type)); }
  let dens: Vec<String> = exp.iter().map(|l| pool.iter().find(|(p, _)| p == l).unwrap().1.clone()).collect();
  let mut names = BTreeSet::new();
  for (i, d) in v.data.iter().enumerate() {
    if d.token_type != i + 2 { return Err(format!("literal {} has type {}, expected {}", exp[i], d.token_type, i + 2)); }
    if !names.insert(d.token_name.clone()) { return Err(format!("token name {} used twice", d.token_name)); }
    let re = Regex::new(&d.regex).map_err(|e| format!("the pattern {:?} of {} is not a regular expression: {}", d.regex, exp[i], e))?;
    let den = &dens[i];
    c.label_if(den.chars().any(|c| "\\.+*?()|[]{}^$#&-~".contains(c)), "literal with metacharacters");
    c.label_if(exp[i].contains('\\'), "literal with escapes");
    c.label_if(den.is_empty(), "empty literal");
    // inputs: the text itself, followed by anything, other literals' texts, near misses
    let mut inputs: Vec<String> = vec![den.clone(), String::new(), format!("{}{}", den, den), exp[i].clone(), exp[i][1..exp[i].len() - 1].to_string()];
    for d2 in &dens { inputs.push(d2.clone()); inputs.push(format!("{}{}", den, d2)); inputs.push(format!("{}{}", d2, den)) }
    for _ in 0..6 { let t = crate::trees::any_text(s, 6); inputs.push(format!("{}{}", den, t)); inputs.push(format!("{}{}", t, den)); inputs.push(t) }
    let cs: Vec<char> = den.chars().collect();
    for k in 0..cs.len().min(8) {
      let mut x = cs.clone(); x.remove(k); inputs.push(x.iter().collect());
      let mut x = cs.clone(); x[k] = rx::gen_char(s); inputs.push(x.iter().collect());
      let mut x = cs.clone(); x.insert(k, rx::gen_char(s)); inputs.push(x.iter().collect());
      let mut x = cs.clone(); if x[k].is_ascii_alphabetic() { x[k] = if x[k].is_ascii_lowercase() { x[k].to_ascii_uppercase() } else { x[k].to_ascii_lowercase() }; inputs.push(x.iter().collect()); }
      let mut x = cs.clone(); x.insert(k, '\n'); inputs.push(x.iter().collect());
    }
    for inp in &inputs {
      c.evals += 1;
      let e = if inp.starts_with(den.as_str()) { Some((0, den.len())) } else { None };
      let g = re.find(inp).map(|m| (m.start(), m.end()));
      if e != g { return Err(format!("literal {} denotes {:?}; its pattern {:?} on {:?} matches {:?}, expected {:?}", exp[i], den, d.regex, inp, g, e)); }
    }
  }
  // token rules afterwards
  let tn = g.token_names();
  let first = v.next_token_type;
  let lv = imp("collecting token rules", || { let mut lv = LexerRuleVisitor::new(v.data, first); RuleListContext::accept(&tree, &mut lv); lv })?;
  if lv.data.len() != exp.len() + tn.len() { return Err(format!("{} entries for {} literals and {} token rules", lv.data.len(), exp.len(), tn.len())); }
  for (i, d) in lv.data.iter().enumerate() {
    if d.token_type != i + 2 { return Err(format!("entry {} has type {}", i, d.token_type)); }
    if i >= exp.len() && d.token_name != tn[i - exp.len()] { return Err(format!("entry {} is {}, expected {}", i, d.token_name, tn[i - exp.len()])); }
  }
  c.label_if(!tn.is_empty() && !exp.is_empty(), "literals and token rules");
  c.nontrivial = exp.len() >= 2;
  Ok(())
}

pub fn rx_inputs(s: &mut Source, rs: &[Rx], n: usize) -> Vec<String> {
  let mut v = vec![String::new()];
  for _ in 0..n {
    let mut t = String::new();
    match s.usize_below(5) {
      0 => { for _ in 0..s.size(6, 20) { t.push(rx::gen_char(s)) } },
      1 => { rx::sample(s.pick(rs), s, &mut t); },
      2 => { rx::sample(s.pick(rs), s, &mut t); for _ in 0..s.size(4, 10) { t.push(rx::gen_char(s)) } },
      3 => { for _ in 0..s.range(1, 5) { rx::sample(s.pick(rs), s, &mut t) } },
      _ => { t.push(rx::gen_char(s)); rx::sample(s.pick(rs), s, &mut t); },
    }
    if s.chance(1, 5) && !t.is_empty() { let mut x: Vec<char> = t.chars().collect(); let k = s.usize_below(x.len()); x[k] = rx::gen_char(s); t = x.into_iter().collect(); }
    if t.len() <= 4000 { v.push(t) }
  }
  v
}

/// constructs outside the own matcher's syntax: here the `regex` crate, given the written expression, is the reference
const FEATURES: &[&str] = &["(?i)", "(?i:ab)", "\\b", "\\B", "$", "^", "\\A", "\\z", "\\d", "\\w+", "\\s", "\\S*", "\\D", "\\p{L}", "\\P{Lu}", "[[:digit:]]", "(?P<name>a)", "(?:a|)", "()", "(|b)", "(?m)", "(?m:^)", "(?s)", "(?U)", "a{2,3}?", "[^\\n]*", "[a&&[^b]]", "[\\/]", "\\/\\/", "\"", "\"#", "#", " ", "\n", "\t", "ab", "a|b", "|", "\\x{41}", "\\.", ".", ".*", ".*?", "$|^", "(?-i)", "(?i)é", "\\u{1F600}", "\\|"];

pub fn c23(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  if s.chance(1, 5) { return c23_features(s, c); }
  c23_plain(s, c)
}

fn c23_features(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let mut defs = vec![]; let mut refs = vec![];
  for i in 0..1 + s.usize_below(4) {
    let mut b = String::new();
    for _ in 0..1 + s.size(3, 7) { let f = *s.pick(FEATURES); b.push_str(f) }
    let r = Regex::new(&format!("\\A(?:{})", b)).ok();
    if let Some(r) = r { defs.push(Def::Token(format!("TK{}", i), b.clone())); refs.push((b, r)) }
  }
  let g = Gram { defs };
  c.case(g.show());
  c.label("flags, anchors, classes by name");
  let tree = tree_old(&g);
  let lv = imp("LexerRuleVisitor", || { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); v.data })?;
  let sv = imp("SymbolVisitor", || { let mut gr = Grammar::new("g"); let mut v = SymbolVisitor::new(&mut gr, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); v.data })?;
  if lv.len() != refs.len() || sv.len() != refs.len() { return Err(format!("{} token rules give {} and {} entries", refs.len(), lv.len(), sv.len())); }
  let mut inputs: Vec<String> = ["", "ab", "AB", "a b", "aab", "\n", "a\nb", "1a", "é", "É", "/", "//", "\"#", "\t ", "A", ".", "😀", "b", "B a"].iter().map(|x| x.to_string()).collect();
  for _ in 0..25 { let mut t = String::new(); for _ in 0..s.size(4, 12) { t.push(rx::gen_char(s)) } inputs.push(t) }
  let mut hits = 0;
  for (i, (body, r)) in refs.iter().enumerate() {
    for (pat, who) in [(&lv[i].regex, "the stand-alone collector"), (&sv[i].regex, "the symbol pass")] {
      let re = Regex::new(pat).map_err(|e| format!("pattern {:?} of /{}/ ({}) is not a regular expression: {}", pat, body, who, e))?;
      for inp in &inputs {
        c.evals += 1;
        let (e, g) = (r.find(inp).map(|m| (m.start(), m.end())), re.find(inp).map(|m| (m.start(), m.end())));
        if e != g { return Err(format!("/{}/ with pattern {:?} of {} on {:?} matches {:?}, the expression written matches {:?}", body, pat, who, inp, g, e)); }
        if let Some((_, k)) = e { if k > 0 { hits += 1 } }
      }
    }
  }
  c.nontrivial = hits >= 2;
  Ok(())
}

fn c23_plain(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let n = 1 + s.size(3, 10);
  let mut rs: Vec<Rx> = vec![];
  let mut defs = vec![];
  for i in 0..n {
    let d = s.usize_below(3);
    let r = rx::gen(s, d);
    defs.push(Def::Token(format!("TK{}", i), r.text()));
    rs.push(r);
  }
  let g = Gram { defs };
  c.case(g.show());
  let tree = tree_old(&g);
  let lv = imp("LexerRuleVisitor", || { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); v.data })?;
  let sv = imp("SymbolVisitor", || { let mut gr = Grammar::new("g"); let mut v = SymbolVisitor::new(&mut gr, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); v.data })?;
  if lv.len() != n || sv.len() != n { return Err(format!("{} token rules give {} and {} entries", n, lv.len(), sv.len())); }
  let inputs = rx_inputs(s, &rs, 40);
  let mut hits = 0;
  for i in 0..n {
    let body = rs[i].text();
    c.label_if(body.contains("\\/"), "escaped slash");
    c.label_if(body.contains('|'), "alternatives");
    let refre = rx::reference(&rs[i])?;
    let compile = |p: &str| Regex::new(p).map_err(|e| format!("pattern {:?} of /{}/ is not a regular expression: {}", p, body, e));
    let res = [compile(&lv[i].regex)?, compile(&sv[i].regex)?];
    for inp in &inputs {
      let cs: Vec<char> = inp.chars().collect();
      let e = match rx::agreed(&rs[i], &refre, inp, &cs) { Err(()) => { c.label("input left out"); continue }, Ok(x) => x };
      c.evals += 1;
      for (re, pat, who) in [(&res[0], &lv[i].regex, "the stand-alone collector"), (&res[1], &sv[i].regex, "the symbol pass")] {
        let g = re.find(inp).map(|m| (m.start(), m.end()));
        if e.map(|k| (0, k)) != g { return Err(format!("/{}/ with pattern {:?} of {} on {:?} matches {:?}, expected prefix {:?}", body, pat, who, inp, g, e)); }
      }
      if let Some(k) = e { if k > 0 { hits += 1 } }
    }
  }
  c.label_if(hits > 0, "some input matched");
  c.nontrivial = hits >= 2;
  Ok(())
}
