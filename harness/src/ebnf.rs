//! Model of grammar files (EBNF), generators, conversion to syntax trees and text, sampling of sentences.

use crate::engine::Source;
use crate::cfg::{Cfg, Sym};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Suf { None, Star, Plus, Opt }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Atom { Tok(String), Rule(String), Lit(String), Group(Block) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem { pub atom: Atom, pub suf: Suf, pub lazy: bool }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Alt { Eps, Seq(Vec<Elem>) }
pub type Block = Vec<Alt>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Def { Rule(String, Block), Token(String, String) } // token: body between the slashes
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Gram { pub defs: Vec<Def> }

impl Gram {
  /// distinct rule names in order of first definition
  pub fn rule_names(&self) -> Vec<String> { let mut v: Vec<String> = vec![]; for d in &self.defs { if let Def::Rule(n, _) = d { if !v.contains(n) { v.push(n.clone()) } } } v }
  pub fn token_names(&self) -> Vec<String> { let mut v: Vec<String> = vec![]; for d in &self.defs { if let Def::Token(n, _) = d { if !v.contains(n) { v.push(n.clone()) } } } v }
  /// all blocks of a rule (duplicate definitions add alternatives)
  pub fn alts(&self, name: &str) -> Vec<&Alt> { let mut v = vec![]; for d in &self.defs { if let Def::Rule(n, b) = d { if n == name { v.extend(b.iter()) } } } v }
  pub fn rule_id(&self) -> HashMap<String, usize> { self.rule_names().into_iter().enumerate().map(|(i, n)| (n, i)).collect() }
  pub fn token_id(&self) -> HashMap<String, usize> { self.token_names().into_iter().enumerate().map(|(i, n)| (n, i + 2)).collect() }
  pub fn show(&self) -> String { let mut o = String::new(); for d in &self.defs { o.push_str(&show_def(d)); o.push('\n') } o }
}
pub fn show_def(d: &Def) -> String {
  match d { Def::Rule(n, b) => format!("{}: {};", n, show_block(b)), Def::Token(n, p) => format!("{}: /{}/;", n, p) }
}
pub fn show_block(b: &Block) -> String { b.iter().map(show_alt).collect::<Vec<_>>().join(" | ") }
pub fn show_alt(a: &Alt) -> String { match a { Alt::Eps => "ε".into(), Alt::Seq(v) => v.iter().map(show_elem).collect::<Vec<_>>().join(" ") } }
pub fn show_elem(e: &Elem) -> String {
  let mut s = match &e.atom { Atom::Tok(n) | Atom::Rule(n) | Atom::Lit(n) => n.clone(), Atom::Group(b) => format!("({})", show_block(b)) };
  match e.suf { Suf::None => {}, Suf::Star => s.push('*'), Suf::Plus => s.push('+'), Suf::Opt => s.push('?') }
  if e.lazy && e.suf != Suf::None { s.push('?') }
  s
}

// ------------------------------------------------------------------ syntax trees of grammar files

/// token types of a grammar-file token family
#[derive(Clone, Copy)]
pub struct Nums { pub v1: bool }
impl Nums {
  pub const OLD: Nums = Nums { v1: false };
  pub const V1: Nums = Nums { v1: true };
  pub fn of(self, name: &str) -> usize {
    let names: &[&str] = if self.v1 { &crate::lexmodel::V1_NAMES } else { &crate::lexmodel::OLD_NAMES };
    names.iter().position(|n| *n == name).unwrap_or_else(|| panic!("no token {}", name))
  }
}
pub const RULES: [&str; 9] = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];

pub fn rule(idx: usize, children: Vec<ASTContext>) -> RuleContext { RuleContext { rule_index: idx, rule_name: RULES[idx].to_string(), children } }

/// One emitted leaf: (token name, text)
pub struct Build<'a> { pub nums: Nums, pub leaf: Box<dyn FnMut(&str, &str) -> Token + 'a> }

pub fn plain_leaf(nums: Nums) -> Build<'static> {
  Build { nums, leaf: Box::new(move |name, text| crate::trees::tok0(nums.of(name), name, text)) }
}

impl<'a> Build<'a> {
  fn t(&mut self, name: &str, text: &str) -> ASTContext { ASTContext::Terminal(TerminalContext { symbol: (self.leaf)(name, text) }) }
  pub fn gram(&mut self, g: &Gram, seps: &mut dyn FnMut() -> &'static str) -> RuleContext {
    let mut ch = Vec::new();
    for d in &g.defs {
      match d {
        Def::Rule(n, b) => {
          let c = vec![self.t("RULE_REF", n), self.t("COLON", seps()), ASTContext::Rule(self.block(b)), self.t("SEMI", ";")];
          ch.push(ASTContext::Rule(rule(1, c)));
        },
        Def::Token(n, p) => {
          let a = self.t("TOKEN_REF", n); let b = self.t("COLON", seps());
          let r = rule(8, vec![self.t("REGULAR_LITERAL", &format!("/{}/", p))]);
          let c = vec![a, b, ASTContext::Rule(r), self.t("SEMI", ";")];
          ch.push(ASTContext::Rule(rule(7, c)));
        },
      }
    }
    rule(0, ch)
  }
  pub fn block(&mut self, b: &Block) -> RuleContext {
    let mut c = Vec::new();
    for (i, a) in b.iter().enumerate() {
      if i > 0 { let t = self.t("OR", "|"); c.push(t) }
      c.push(ASTContext::Rule(self.alt(a)));
    }
    rule(2, c)
  }
  pub fn alt(&mut self, a: &Alt) -> RuleContext {
    match a {
      Alt::Eps => { let t = self.t("EPSILON", "ε"); rule(3, vec![ASTContext::Rule(rule(4, vec![t]))]) },
      Alt::Seq(v) => { let mut c = Vec::new(); for e in v { c.push(ASTContext::Rule(self.elem(e))) } rule(3, c) },
    }
  }
  pub fn elem(&mut self, e: &Elem) -> RuleContext {
    let mut c = Vec::new();
    match &e.atom {
      Atom::Tok(n) => { let t = self.t("TOKEN_REF", n); c.push(t) },
      Atom::Rule(n) => { let t = self.t("RULE_REF", n); c.push(t) },
      Atom::Lit(n) => { let t = self.t("STRING_LITERAL", n); c.push(t) },
      Atom::Group(b) => { let t = self.t("LPAREN", "("); c.push(t); c.push(ASTContext::Rule(self.block(b))); let t = self.t("RPAREN", ")"); c.push(t) },
    }
    if e.suf != Suf::None {
      let mut k = Vec::new();
      let t = match e.suf { Suf::Star => self.t("STAR", "*"), Suf::Plus => self.t("PLUS", "+"), _ => self.t("QUESTION", "?") };
      k.push(t);
      if e.lazy { let t = self.t("QUESTION", "?"); k.push(t) }
      c.push(ASTContext::Rule(rule(6, k)));
    }
    rule(5, c)
  }
}

/// the tree in the numbering of the hand-written front end, without positions
pub fn tree_old(g: &Gram) -> RuleContext { plain_leaf(Nums::OLD).gram(g, &mut || ":") }

// ------------------------------------------------------------------ reference desugaring (no sharing)

pub struct Desugared { pub cfg: Cfg, pub names: Vec<String> }

pub fn desugar(g: &Gram) -> Desugared {
  let rid = g.rule_id();
  let tid = g.token_id();
  let names = g.rule_names();
  let mut next = names.len();
  let mut prods: BTreeSet<(usize, Vec<Sym>)> = BTreeSet::new();
  fn block(b: &[&Alt], id: usize, rid: &HashMap<String, usize>, tid: &HashMap<String, usize>, next: &mut usize, prods: &mut BTreeSet<(usize, Vec<Sym>)>) {
    for a in b {
      let right = match a { Alt::Eps => vec![], Alt::Seq(v) => v.iter().map(|e| elem(e, rid, tid, next, prods)).collect() };
      prods.insert((id, right));
    }
  }
  fn elem(e: &Elem, rid: &HashMap<String, usize>, tid: &HashMap<String, usize>, next: &mut usize, prods: &mut BTreeSet<(usize, Vec<Sym>)>) -> Sym {
    let s = match &e.atom {
      Atom::Tok(n) => Sym::T(tid[n]),
      Atom::Rule(n) => Sym::N(rid[n]),
      Atom::Lit(_) => unreachable!(),
      Atom::Group(b) => { let id = *next; *next += 1; let v: Vec<&Alt> = b.iter().collect(); block(&v, id, rid, tid, next, prods); Sym::N(id) },
    };
    let mut fresh = || { let id = *next; *next += 1; id };
    match e.suf {
      Suf::None => s,
      Suf::Star => { let x = fresh(); prods.insert((x, vec![])); prods.insert((x, vec![s, Sym::N(x)])); Sym::N(x) },
      Suf::Plus => { let x = fresh(); let y = fresh(); prods.insert((x, vec![s, Sym::N(y)])); prods.insert((y, vec![])); prods.insert((y, vec![s, Sym::N(y)])); Sym::N(x) },
      Suf::Opt => { let x = fresh(); prods.insert((x, vec![])); prods.insert((x, vec![s])); Sym::N(x) },
    }
  }
  for (i, n) in names.iter().enumerate() {
    let alts = g.alts(n);
    block(&alts, i, &rid, &tid, &mut next, &mut prods);
  }
  Desugared { cfg: Cfg { nts: (0..next).collect(), prods: prods.into_iter().collect() }, names }
}

// ------------------------------------------------------------------ bounded languages of the EBNF

pub type Lang = BTreeSet<Vec<u16>>;

// amount of work spent on bounded languages since the last reset; beyond the limit the enumeration gives up
thread_local! { static WORK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
pub const WORK_LIMIT: usize = 700_000;
pub fn work_reset() { WORK.with(|w| w.set(0)) }
pub fn work_exceeded() -> bool { WORK.with(|w| w.get() > WORK_LIMIT) }

pub fn concat(a: &Lang, b: &Lang, n: usize) -> Lang {
  WORK.with(|w| w.set(w.get() + a.len() * b.len() + 1));
  if work_exceeded() { return Lang::new(); }
  let mut r = Lang::new();
  for x in a { for y in b { if x.len() + y.len() <= n { let mut z = x.clone(); z.extend_from_slice(y); r.insert(z); } } }
  r
}

pub fn ebnf_lang(g: &Gram, n: usize, cap: usize) -> Option<Vec<Lang>> {
  let rid = g.rule_id();
  let tid = g.token_id();
  let names = g.rule_names();
  let mut env: Vec<Lang> = vec![Lang::new(); names.len()];
  work_reset();
  fn eb(b: &[&Alt], env: &Vec<Lang>, rid: &HashMap<String, usize>, tid: &HashMap<String, usize>, n: usize) -> Lang {
    let mut r = Lang::new();
    for a in b {
      match a {
        Alt::Eps => { r.insert(vec![]); },
        Alt::Seq(v) => {
          let mut cur: Lang = [vec![]].into_iter().collect();
          for e in v { let l = ee(e, env, rid, tid, n); cur = concat(&cur, &l, n); if cur.is_empty() { break; } }
          r.extend(cur);
        },
      }
    }
    r
  }
  fn ee(e: &Elem, env: &Vec<Lang>, rid: &HashMap<String, usize>, tid: &HashMap<String, usize>, n: usize) -> Lang {
    let base: Lang = match &e.atom {
      Atom::Tok(t) => if n >= 1 { [vec![tid[t] as u16]].into_iter().collect() } else { Lang::new() },
      Atom::Rule(r) => env[rid[r]].clone(),
      Atom::Lit(_) => unreachable!(),
      Atom::Group(b) => { let v: Vec<&Alt> = b.iter().collect(); eb(&v, env, rid, tid, n) },
    };
    let closure = |start: Lang| -> Lang {
      let mut all = start.clone(); let mut last = start;
      loop {
        let next = concat(&last, &base, n);
        let new: Lang = next.difference(&all).cloned().collect();
        if new.is_empty() { return all; }
        all.extend(new.iter().cloned()); last = new;
      }
    };
    match e.suf {
      Suf::None => base.clone(),
      Suf::Opt => { let mut b = base.clone(); b.insert(vec![]); b },
      Suf::Star => closure([vec![]].into_iter().collect()),
      Suf::Plus => closure(base.clone()),
    }
  }
  loop {
    let mut changed = false;
    for i in 0..names.len() {
      let alts = g.alts(&names[i]);
      let l = eb(&alts, &env, &rid, &tid, n);
      if l.len() > cap || work_exceeded() { return None; }
      if l.len() != env[i].len() { env[i] = l; changed = true; }
    }
    if !changed { return Some(env); }
  }
}

// ------------------------------------------------------------------ sampling sentences with their trees

#[derive(Clone, Debug, PartialEq)]
pub enum Node { T(usize), R(usize, Vec<Node>) } // T(token id), R(rule id, children)

pub const INF: usize = 1 << 20;

/// minimal derivation heights (INF = unproductive)
pub struct Heights { pub rule: Vec<usize> }
pub fn heights(g: &Gram) -> Heights {
  let rid = g.rule_id();
  let names = g.rule_names();
  let mut h = vec![INF; names.len()];
  loop {
    let mut ch = false;
    for (i, n) in names.iter().enumerate() {
      let v = g.alts(n).iter().map(|a| alt_h(a, &h, &rid)).min().unwrap_or(INF).saturating_add(1).min(INF);
      if v < h[i] { h[i] = v; ch = true; }
    }
    if !ch { return Heights { rule: h }; }
  }
}
pub fn alt_h(a: &Alt, h: &[usize], rid: &HashMap<String, usize>) -> usize {
  match a { Alt::Eps => 0, Alt::Seq(v) => v.iter().map(|e| elem_h(e, h, rid)).max().unwrap_or(0) }
}
fn elem_h(e: &Elem, h: &[usize], rid: &HashMap<String, usize>) -> usize {
  match e.suf { Suf::Star | Suf::Opt => 0, _ => atom_h(&e.atom, h, rid) }
}
fn atom_h(a: &Atom, h: &[usize], rid: &HashMap<String, usize>) -> usize {
  match a { Atom::Tok(_) | Atom::Lit(_) => 0, Atom::Rule(r) => h[rid[r]], Atom::Group(b) => b.iter().map(|a| alt_h(a, h, rid)).min().unwrap_or(INF) }
}

pub struct Sampler<'a> { pub alts: Vec<Vec<&'a Alt>>, pub rid: HashMap<String, usize>, pub tid: HashMap<String, usize>, pub h: Heights, pub budget: isize, pub reps: usize }
impl<'a> Sampler<'a> {
  pub fn new(g: &'a Gram, budget: isize, reps: usize) -> Self { Sampler { alts: g.rule_names().iter().map(|n| g.alts(n)).collect(), rid: g.rule_id(), tid: g.token_id(), h: heights(g), budget, reps } }
  pub fn rule(&mut self, s: &mut Source, id: usize) -> Node {
    self.budget -= 1;
    let alts = self.alts[id].clone();
    let mut out = Vec::new();
    self.choose(s, &alts, &mut out);
    Node::R(id, out)
  }
  fn choose(&mut self, s: &mut Source, b: &[&Alt], out: &mut Vec<Node>) {
    let hs: Vec<usize> = b.iter().map(|a| alt_h(a, &self.h.rule, &self.rid)).collect();
    let min = *hs.iter().min().unwrap();
    let cands: Vec<usize> = (0..b.len()).filter(|i| hs[*i] < INF && (self.budget > 0 || hs[*i] == min)).collect();
    let i = *s.pick(&cands);
    match b[i] { Alt::Eps => {}, Alt::Seq(v) => for e in v { self.elem(s, e, out) } }
  }
  fn elem(&mut self, s: &mut Source, e: &Elem, out: &mut Vec<Node>) {
    let ok = atom_h(&e.atom, &self.h.rule, &self.rid) < INF;
    let n = match e.suf {
      Suf::None => 1,
      Suf::Opt => if ok && self.budget > 0 { s.usize_below(2) } else { 0 },
      Suf::Star => if ok && self.budget > 0 { s.size(2, self.reps) } else { 0 },
      Suf::Plus => 1 + if self.budget > 0 { s.size(2, self.reps) } else { 0 },
    };
    for k in 0..n {
      if k > 0 && self.budget <= 0 { break; }
      self.budget -= 1;
      match &e.atom {
        Atom::Tok(t) => out.push(Node::T(self.tid[t])),
        Atom::Rule(r) => { let id = self.rid[r]; let x = self.rule(s, id); out.push(x) },
        Atom::Group(b) => { let v: Vec<&Alt> = b.iter().collect(); self.choose(s, &v, out) },
        Atom::Lit(_) => unreachable!(),
      }
    }
  }
}
pub fn frontier(n: &Node, out: &mut Vec<usize>) { match n { Node::T(t) => out.push(*t), Node::R(_, c) => for x in c { frontier(x, out) } } }
pub fn show_node(n: &Node, names: &[String]) -> String {
  match n { Node::T(t) => t.to_string(), Node::R(i, c) => format!("{}({})", names[*i], c.iter().map(|x| show_node(x, names)).collect::<Vec<_>>().join(" ")) }
}

// ------------------------------------------------------------------ generators

pub struct GenOpts { pub plus: bool, pub lits: bool, pub dup: bool, pub max_rules: usize, pub max_toks: usize, pub depth: usize, pub max_alts: usize, pub max_seq: usize, pub suffix: bool }

pub fn names(s: &mut Source, n: usize, upper: bool, wild: bool) -> Vec<String> {
  let mut v: Vec<String> = Vec::new();
  for i in 0..n {
    let mut w = if wild && s.chance(1, 2) {
      match s.weighted(&[5, 3, 2]) {
        // now and then a very long one
        0 if s.chance(1, 12) => { let m = s.range(30, 300); let mut w = crate::lexmodel::word(s, upper, 20); while w.len() < m { let l = crate::lexmodel::word(s, false, 20); w.push_str(&l) } w },
        0 => crate::lexmodel::word(s, upper, 20),
        1 if i > 0 => { let k = s.usize_below(i); let b = v[k].clone(); if s.chance(1, 2) { crate::lexmodel::near_name(s, &b) } else { format!("{}{}", b, s.pick(&["x", "_", "0", "X", "_list", "1"])) } }, // near another name, or beginning with it
        _ => s.pick(if upper { &["EPSILON", "WHITE_SPACE", "RULE_REF", "TOKEN_REF", "EOF", "STOP", "START", "STRING_LITERAL", "AA", "Aa", "A_"] } else { &["epsilon", "rule_list", "block", "element", "self", "fn", "start", "stop", "aa", "aA", "a_"] }).to_string(),
      }
    } else if upper { format!("TK{}", i) } else { format!("rr{}", i) };
    if !upper && w == "fragment" { w = "fragment_".into(); }
    if upper && (w == "Self") { w = "Self_".into(); }
    // T_<n> and _T_<n> are the names given to literals, Earlier<n> is used by a check
    if upper && (w.starts_with("T_") || w.starts_with("_T") || w.starts_with("Earlier")) { w = format!("U{}", w) }
    while v.contains(&w) { w.push('x'); }
    v.push(w);
  }
  v
}

pub fn gen_gram(s: &mut Source, o: &GenOpts) -> Gram {
  let nr = 1 + s.size((o.max_rules / 3).max(2), o.max_rules - 1);
  let nt = 1 + s.size((o.max_toks / 3).max(3), o.max_toks - 1);
  let wild = s.chance(1, 3);
  let mut rn = names(s, nr, false, wild);
  let tn = names(s, nt, true, wild);
  // a rule and a token named alike up to case
  if wild && s.chance(1, 2) { for _ in 0..s.range(1, 3) { let w = s.pick(&tn).to_lowercase(); let k = s.usize_below(rn.len()); if !rn.contains(&w) && w != "fragment" { rn[k] = w } } }
  let mut defs: Vec<Def> = Vec::new();
  for r in &rn { let b = gen_block(s, o, &rn, &tn, o.depth); defs.push(Def::Rule(r.clone(), b)); }
  for (i, t) in tn.iter().enumerate() { defs.push(Def::Token(t.clone(), simple_pat(i))); }
  if s.chance(1, 3) { for _ in 0..s.range(1, 4) { recur(s, &mut defs, &tn, o) } }
  // one deeply nested group
  if o.depth >= 2 && s.chance(1, 40) {
    let mut e = gen_elem(s, o, &rn, &tn, 0);
    for _ in 0..s.range(4, 14) {
      let suf = if o.suffix { match s.weighted(&[4, 1, if o.plus { 1 } else { 0 }, 2]) { 0 => Suf::None, 1 => Suf::Star, 2 => Suf::Plus, _ => Suf::Opt } } else { Suf::None };
      let mut v = vec![e];
      if s.chance(1, 3) { let x = gen_elem(s, o, &rn, &tn, 0); v.insert(s.usize_below(2), x) }
      let mut b = vec![Alt::Seq(v)];
      if s.chance(1, 4) { let x = gen_alt(s, o, &rn, &tn, 0); b.push(x) }
      let lazy = suf != Suf::None && s.chance(1, 4);
      e = Elem { atom: Atom::Group(b), suf, lazy };
    }
    let k = s.usize_below(rn.len());
    if let Def::Rule(_, b) = &mut defs[k] { let j = s.usize_below(b.len()); match &mut b[j] { Alt::Seq(v) => v.push(e), a => *a = Alt::Seq(vec![e]) } }
  }
  if o.dup && s.chance(1, 4) {
    let k = 1 + s.usize_below(3);
    for _ in 0..k {
      if s.chance(1, 2) { let r = s.pick(&rn).clone(); let b = gen_block(s, o, &rn, &tn, 1); defs.push(Def::Rule(r, b)); }
      else { let t = s.pick(&tn).clone(); let p = simple_pat(40 + s.usize_below(20)); defs.push(Def::Token(t, p)); }
    }
  }
  if s.chance(1, 2) { s.shuffle(&mut defs); }
  // a grammar needs a rule definition first for the start symbol; any order is fine
  Gram { defs }
}
/// repeats an element somewhere else, exactly or slightly changed
fn recur(s: &mut Source, defs: &mut [Def], tn: &[String], o: &GenOpts) {
  fn all<'a>(b: &'a Block, out: &mut Vec<&'a Elem>) { for a in b { if let Alt::Seq(v) = a { for e in v { out.push(e); if let Atom::Group(b) = &e.atom { all(b, out) } } } } }
  fn weight(e: &Elem) -> usize { 1 + match &e.atom { Atom::Group(b) => b.iter().map(|a| match a { Alt::Eps => 1, Alt::Seq(v) => v.iter().map(weight).sum() }).sum::<usize>(), _ => 0 } }
  let mut es = vec![];
  for d in defs.iter() { if let Def::Rule(_, b) = d { all(b, &mut es) } }
  es.retain(|e| weight(e) <= 12);
  if es.is_empty() { return; }
  let groups: Vec<&Elem> = es.iter().filter(|e| matches!(e.atom, Atom::Group(_))).copied().collect();
  let mut e: Elem = if !groups.is_empty() && s.chance(3, 4) { (*s.pick(&groups)).clone() } else { (*s.pick(&es)).clone() };
  if o.suffix && s.chance(1, 2) { e.suf = match s.weighted(&[3, 3, if o.plus { 2 } else { 0 }, 3]) { 0 => Suf::None, 1 => Suf::Star, 2 => Suf::Plus, _ => Suf::Opt }; e.lazy = e.suf != Suf::None && s.chance(1, 4); }
  if let Atom::Group(b) = &mut e.atom {
    match s.usize_below(6) {
      0 => s.shuffle(b),
      1 => { let a = s.pick(b).clone(); b.push(a) },
      2 => { if b.len() > 1 { b.pop(); } },
      3 => { b.push(Alt::Eps) },
      4 => { let k = s.usize_below(b.len()); if let Alt::Seq(v) = &mut b[k] { let j = s.usize_below(v.len()); v[j].atom = Atom::Tok(s.pick(tn).clone()) } },
      _ => {},
    }
  } else if s.chance(1, 4) { e = Elem { atom: Atom::Group(vec![Alt::Seq(vec![Elem { suf: Suf::None, lazy: false, ..e.clone() }])]), suf: e.suf, lazy: e.lazy } }
  let rules: Vec<usize> = defs.iter().enumerate().filter(|(_, d)| matches!(d, Def::Rule(..))).map(|(i, _)| i).collect();
  let k = *s.pick(&rules);
  if let Def::Rule(_, b) = &mut defs[k] {
    let j = s.usize_below(b.len());
    match &mut b[j] { Alt::Seq(v) => { let at = s.usize_below(v.len() + 1); v.insert(at, e) }, a => *a = Alt::Seq(vec![e]) }
  }
}
pub fn simple_pat(i: usize) -> String { let a = (b'a' + (i % 26) as u8) as char; format!("{}{}", a, i) }

pub fn gen_block(s: &mut Source, o: &GenOpts, rn: &[String], tn: &[String], d: usize) -> Block {
  let n = 1 + s.size(1.min(o.max_alts - 1), o.max_alts - 1);
  (0..n).map(|_| gen_alt(s, o, rn, tn, d)).collect()
}
pub fn gen_alt(s: &mut Source, o: &GenOpts, rn: &[String], tn: &[String], d: usize) -> Alt {
  if s.chance(1, 9) { return Alt::Eps; }
  let n = 1 + s.size(2, o.max_seq - 1);
  Alt::Seq((0..n).map(|_| gen_elem(s, o, rn, tn, d)).collect())
}
pub fn gen_elem(s: &mut Source, o: &GenOpts, rn: &[String], tn: &[String], d: usize) -> Elem {
  let atom = match s.weighted(&[8, 5, if d > 0 { 4 } else { 0 }, if o.lits { 3 } else { 0 }]) {
    0 => Atom::Tok(s.pick(tn).clone()),
    1 => Atom::Rule(s.pick(rn).clone()),
    2 => { let deep = if s.chance(1, 8) { d } else { d - 1 }; let _ = deep; Atom::Group(gen_block(s, &GenOpts { max_alts: o.max_alts.min(4), max_seq: o.max_seq.min(4), ..*o }, rn, tn, d - 1)) },
    _ => Atom::Lit(crate::lexmodel::string_lit_text(s, 12)),
  };
  let suf = if o.suffix { match s.weighted(&[9, 3, if o.plus { 2 } else { 0 }, 3]) { 0 => Suf::None, 1 => Suf::Star, 2 => Suf::Plus, _ => Suf::Opt } } else { Suf::None };
  let lazy = suf != Suf::None && s.chance(1, 4);
  Elem { atom, suf, lazy }
}

/// LL(1) grammars by construction-with-repair: alternatives get distinguishing leading tokens until the reference
/// analysis finds no conflict.
pub fn gen_ll1(s: &mut Source) -> Gram {
  let big = s.chance(1, 8);
  let o = if s.chance(1, 800) { GenOpts { plus: false, lits: false, dup: false, max_rules: 120, max_toks: 300, depth: 1, max_alts: 2, max_seq: 3, suffix: true } } else { GenOpts { plus: false, lits: false, dup: false, max_rules: if big { 14 } else { 5 }, max_toks: if big { 24 } else { 6 }, depth: if big { 4 } else { 2 },
    max_alts: if big { 8 } else { 3 }, max_seq: if big { 9 } else { 4 }, suffix: true } };
  let mut g = gen_gram(s, &o);
  // Definitions may be in any order; make every rule productive, then remove conflicts.
  repair(&mut g);
  g
}

fn fresh_tok(g: &mut Gram) -> String {
  let mut i = g.token_names().len();
  loop {
    let n = format!("FX{}", i);
    if !g.token_names().contains(&n) { let p = format!("f{}", i); g.defs.push(Def::Token(n.clone(), p)); return n; }
    i += 1;
  }
}

/// Make a grammar productive and LL(1) by inserting fresh tokens (deterministic, no randomness).
pub fn repair(g: &mut Gram) {
  // productive
  loop {
    let h = heights(g);
    let names = g.rule_names();
    match (0..names.len()).find(|i| h.rule[*i] >= INF) {
      None => break,
      Some(i) => {
        let t = fresh_tok(g);
        for d in &mut g.defs { if let Def::Rule(n, b) = d { if *n == names[i] { b.push(Alt::Seq(vec![Elem { atom: Atom::Tok(t.clone()), suf: Suf::None, lazy: false }])); break; } } }
      },
    }
  }
  if count_alts(g) <= 16 {
    // small grammars: as few insertions as a greedy search finds
    for _ in 0..12 {
      if desugar(g).cfg.ll1_conflicts().is_empty() { return; }
      if !repair_once(g) { break; }
    }
  }
  // rewrite only the blocks and suffixes whose decision is ambiguous
  for round in 0..6 {
    let bad: BTreeSet<usize> = desugar(g).cfg.ll1_conflicts().into_iter().map(|(n, _)| n).collect();
    if bad.is_empty() { return; }
    let mut nt = g.token_names().len();
    let taken: BTreeSet<String> = g.token_names().into_iter().collect();
    let mut new: Vec<Def> = vec![];
    let mut fresh = || loop { let n = format!("FX{}", nt); let p = format!("f{}", nt); nt += 1; if !taken.contains(&n) { new.push(Def::Token(n.clone(), p)); return n; } };
    let names = g.rule_names();
    let mut next = names.len();
    for (i, n) in names.iter().enumerate() {
      for d in &mut g.defs { if let Def::Rule(m, b) = d { if m == n { directed(b, i, &bad, round, &mut next, &mut fresh) } } }
    }
    g.defs.extend(new);
  }
  if !desugar(g).cfg.ll1_conflicts().is_empty() {
    // give up: prefix everything
    let mut need: Vec<String> = Vec::new();
    let cnt = count_spots(g);
    let taken: BTreeSet<String> = g.token_names().into_iter().collect();
    let mut i = taken.len();
    while need.len() < cnt { let n = format!("FX{}", i); if !taken.contains(&n) { g.defs.push(Def::Token(n.clone(), format!("f{}", i))); need.push(n) } i += 1; }
    let mut it = need.into_iter();
    for d in &mut g.defs { if let Def::Rule(_, b) = d { prefix_block(b, &mut it); } }
  }
}
/// one pass over a block in the numbering of `desugar`
fn directed(b: &mut Block, id: usize, bad: &BTreeSet<usize>, round: usize, next: &mut usize, fresh: &mut dyn FnMut() -> String) {
  let hit = bad.contains(&id);
  for (k, a) in b.iter_mut().enumerate() {
    match a {
      Alt::Eps => if hit && round > 0 { *a = Alt::Seq(vec![tok(fresh())]) },
      Alt::Seq(v) => {
        let mut out = vec![];
        if hit && (k > 0 || round > 0) { out.push(tok(fresh())) }
        for mut e in v.drain(..) {
          if let Atom::Group(b) = &mut e.atom { let id = *next; *next += 1; directed(b, id, bad, round, next, fresh) }
          let mut after = false;
          if e.suf != Suf::None {
            let x = *next; *next += 1;
            let mut h = bad.contains(&x);
            if e.suf == Suf::Plus { let y = *next; *next += 1; h |= bad.contains(&y); }
            if h {
              let inner = Elem { atom: e.atom.clone(), suf: Suf::None, lazy: false };
              e.atom = Atom::Group(vec![Alt::Seq(vec![tok(fresh()), inner])]);
              after = round > 0;
            }
          }
          out.push(e);
          if after { out.push(tok(fresh())) }
        }
        *v = out;
      },
    }
  }
}
fn count_spots(g: &Gram) -> usize {
  fn cb(b: &Block) -> usize { b.iter().map(|a| 1 + match a { Alt::Eps => 0, Alt::Seq(v) => v.iter().map(|e| 2 + match &e.atom { Atom::Group(b) => cb(b), _ => 0 }).sum() }).sum() }
  g.defs.iter().map(|d| if let Def::Rule(_, b) = d { cb(b) } else { 0 }).sum()
}
fn tok(n: String) -> Elem { Elem { atom: Atom::Tok(n), suf: Suf::None, lazy: false } }
/// every alternative starts with its own token and every optional part is followed by its own token
fn prefix_block(b: &mut Block, it: &mut dyn Iterator<Item = String>) {
  for a in b.iter_mut() {
    match a {
      Alt::Eps => { *a = Alt::Seq(vec![tok(it.next().unwrap())]) },
      Alt::Seq(v) => {
        let mut out = vec![tok(it.next().unwrap())];
        for mut e in v.drain(..) {
          if let Atom::Group(b) = &mut e.atom { prefix_block(b, it); }
          let opt = e.suf != Suf::None;
          if opt {
            // make the optional part start with its own token
            let inner = Elem { atom: e.atom.clone(), suf: Suf::None, lazy: false };
            e.atom = Atom::Group(vec![Alt::Seq(vec![tok(it.next().unwrap()), inner])]);
          }
          out.push(e);
          if opt { out.push(tok(it.next().unwrap())); }
        }
        *v = out;
      },
    }
  }
}

/// Find one place (block or suffix) whose decision is ambiguous under the current analysis and insert one fresh token there.
fn repair_once(g: &mut Gram) -> bool {
  // Number the spots: try inserting a token at the head of some alternative; keep the first insertion that lowers the conflict count.
  let before = desugar(g).cfg.ll1_conflicts().len();
  let spots = count_alts(g);
  let mut best: Option<(usize, Gram)> = None;
  for i in 0..spots {
    let mut h = g.clone();
    let t = fresh_tok(&mut h);
    let mut k = i;
    for d in &mut h.defs { if let Def::Rule(_, b) = d { if insert_at(b, &mut k, &t) { break; } } }
    let c = desugar(&h).cfg.ll1_conflicts().len();
    if c < before && best.as_ref().map(|(b, _)| c < *b).unwrap_or(true) { best = Some((c, h)); if c == 0 { break; } }
    if spots > 40 && best.is_some() { break; }
  }
  match best { Some((_, h)) => { *g = h; true }, None => false }
}
fn count_alts(g: &Gram) -> usize {
  fn cb(b: &Block) -> usize { b.iter().map(|a| match a { Alt::Eps => 1, Alt::Seq(v) => v.len() + v.iter().map(|e| match &e.atom { Atom::Group(b) => cb(b), _ => 0 }).sum::<usize>() }).sum() }
  g.defs.iter().map(|d| if let Def::Rule(_, b) = d { cb(b) } else { 0 }).sum()
}
fn insert_at(b: &mut Block, k: &mut usize, t: &str) -> bool {
  for a in b.iter_mut() {
    match a {
      Alt::Eps => { if *k == 0 { *a = Alt::Seq(vec![tok(t.to_string())]); return true; } *k -= 1; },
      Alt::Seq(v) => {
        for i in 0..v.len() {
          if *k == 0 { v.insert(i, tok(t.to_string())); return true; }
          *k -= 1;
          if let Atom::Group(b) = &mut v[i].atom { if insert_at(b, k, t) { return true; } }
        }
      },
    }
  }
  false
}

pub fn stats(g: &Gram) -> BTreeMap<&'static str, usize> {
  let mut m = BTreeMap::new();
  fn cb(b: &Block, d: usize, m: &mut BTreeMap<&'static str, usize>) {
    for a in b {
      match a {
        Alt::Eps => { *m.entry("eps").or_insert(0) += 1 },
        Alt::Seq(v) => for e in v {
          match e.suf { Suf::None => {}, Suf::Star => *m.entry("star").or_insert(0) += 1, Suf::Plus => *m.entry("plus").or_insert(0) += 1, Suf::Opt => *m.entry("opt").or_insert(0) += 1 }
          if let Atom::Group(b) = &e.atom { *m.entry("group").or_insert(0) += 1; if d >= 1 { *m.entry("nested").or_insert(0) += 1 } cb(b, d + 1, m) }
        },
      }
    }
  }
  for d in &g.defs { if let Def::Rule(_, b) = d { cb(b, 0, &mut m) } }
  m
}
