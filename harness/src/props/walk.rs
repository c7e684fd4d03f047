//! C16 C17: visitors and listeners.
use crate::engine::*;
use crate::trees::{self, *};
use std::any::Any;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};

type P = usize;
fn p<T>(x: &T) -> P { x as *const T as usize }

#[derive(Clone, PartialEq, Debug)]
pub enum Ev { Method(usize, P), Term(P), Err(P), Ask(P, String), Agg(String, String) }

/// policy shared by the real visitor and the model
#[derive(Clone)]
pub struct Policy { pub cut: [bool; 9], pub stop_after: Option<usize>, pub stop_on: Option<char>, pub asks: usize }
impl Policy {
  fn go_on(&mut self, cur: &str) -> bool {
    self.asks += 1;
    if let Some(n) = self.stop_after { if self.asks > n { return false; } }
    if let Some(ch) = self.stop_on { if cur.contains(ch) { return false; } }
    true
  }
}

fn st(b: &dyn Any) -> String { if let Some(s) = b.downcast_ref::<String>() { s.clone() } else if let Some(b) = b.downcast_ref::<Box<dyn Any>>() { b.downcast_ref::<String>().cloned().unwrap_or("?".into()) } else { "?".into() } }
fn short(a: String) -> String { if a.len() > 40 { format!("{:x}", fnv(a.as_bytes())) } else { a } }

macro_rules! visitors {
  ($modn:ident, $ctx:path, $vis:path) => {
    pub mod $modn {
      use super::*;
      use $ctx as m;
      use $vis as SyntaxisVisitor;
      /// overrides every rule method
      pub struct Full { pub log: Vec<Ev>, pub pol: Policy, pub n: usize }
      impl Full {
        fn rule(&mut self, i: usize, r: &RuleContext) -> Box<dyn Any> {
          self.log.push(Ev::Method(i, p(r)));
          if self.pol.cut[i] { return Box::new(format!("c{}", i)); }
          let x = self.visit_children(r);
          Box::new(short(format!("m{}<{}>", i, st(&x))))
        }
      }
      macro_rules! common { () => {
        fn visit_terminal(&mut self, t: &TerminalContext) -> Box<dyn Any> { self.log.push(Ev::Term(p(t))); Box::new(format!("t{}", t.symbol.token_type)) }
        fn visit_errornode(&mut self, t: &ErrorContext) -> Box<dyn Any> { self.log.push(Ev::Err(p(t))); Box::new(format!("e{}", t.symbol.token_type)) }
        fn default_result(&mut self) -> Box<dyn Any> { Box::new("d".to_string()) }
        fn aggregate_result(&mut self, a: Box<dyn Any>, b: Box<dyn Any>) -> Box<dyn Any> { let (a, b) = (st(&*a), st(&*b)); self.log.push(Ev::Agg(a.clone(), b.clone())); Box::new(short(format!("{}.{}", a, b))) }
        fn should_visit_next_child(&mut self, c: &RuleContext, cur: &dyn Any) -> bool { let x = st(cur); self.log.push(Ev::Ask(p(c), x.clone())); self.pol.go_on(&x) }
      } }
      impl SyntaxisVisitor for Full {
        fn visit_rule_list(&mut self, c: &dyn m::RuleListContext) -> Box<dyn Any> { self.rule(0, c.as_rule()) }
        fn visit_parser_rule(&mut self, c: &dyn m::ParserRuleContext) -> Box<dyn Any> { self.rule(1, c.as_rule()) }
        fn visit_block(&mut self, c: &dyn m::BlockContext) -> Box<dyn Any> { self.rule(2, c.as_rule()) }
        fn visit_alternative(&mut self, c: &dyn m::AlternativeContext) -> Box<dyn Any> { self.rule(3, c.as_rule()) }
        fn visit_epsilon(&mut self, c: &dyn m::EpsilonContext) -> Box<dyn Any> { self.rule(4, c.as_rule()) }
        fn visit_element(&mut self, c: &dyn m::ElementContext) -> Box<dyn Any> { self.rule(5, c.as_rule()) }
        fn visit_ebnf_suffix(&mut self, c: &dyn m::EbnfSuffixContext) -> Box<dyn Any> { self.rule(6, c.as_rule()) }
        fn visit_lexer_rule(&mut self, c: &dyn m::LexerRuleContext) -> Box<dyn Any> { self.rule(7, c.as_rule()) }
        fn visit_regular(&mut self, c: &dyn m::RegularContext) -> Box<dyn Any> { self.rule(8, c.as_rule()) }
        common!();
      }
      /// keeps every default rule method
      pub struct Bare { pub log: Vec<Ev>, pub pol: Policy }
      impl SyntaxisVisitor for Bare { common!(); }
      /// keeps every default there is, except that it notes the leaves
      pub struct Leafy { pub log: Vec<Ev> }
      impl SyntaxisVisitor for Leafy {
        fn visit_terminal(&mut self, t: &TerminalContext) -> Box<dyn Any> { self.log.push(Ev::Term(p(t))); Box::new(format!("t{}", t.symbol.token_type)) }
        fn visit_errornode(&mut self, t: &ErrorContext) -> Box<dyn Any> { self.log.push(Ev::Err(p(t))); Box::new(format!("e{}", t.symbol.token_type)) }
      }
      /// overrides nothing
      pub struct Nothing;
      impl SyntaxisVisitor for Nothing {}

      pub fn full(t: &RuleContext, pol: Policy) -> Result<(Vec<Ev>, String), String> { imp("visit", || { let mut v = Full { log: vec![], pol, n: 0 }; let r = v.visit(t); (v.log, st(&*r)) }) }
      pub fn bare(t: &RuleContext, pol: Policy) -> Result<(Vec<Ev>, String), String> { imp("visit", || { let mut v = Bare { log: vec![], pol }; let r = v.visit(t); (v.log, st(&*r)) }) }
      pub fn leafy(t: &RuleContext) -> Result<(Vec<Ev>, String), String> { imp("visit", || { let mut v = Leafy { log: vec![] }; let r = v.visit(t); (v.log, st(&*r)) }) }
      pub fn nothing(t: &RuleContext) -> Result<bool, String> { imp("visit", || { Nothing.visit(t).downcast_ref::<()>().is_some() }) }
      pub fn accept(t: &RuleContext, i: usize, pol: Policy) -> Result<(Vec<Ev>, String), String> {
        imp("accept", || {
          let mut v = Full { log: vec![], pol, n: 0 };
          let r = match i {
            0 => m::RuleListContext::accept(t, &mut v), 1 => m::ParserRuleContext::accept(t, &mut v), 2 => m::BlockContext::accept(t, &mut v), 3 => m::AlternativeContext::accept(t, &mut v),
            4 => m::EpsilonContext::accept(t, &mut v), 5 => m::ElementContext::accept(t, &mut v), 6 => m::EbnfSuffixContext::accept(t, &mut v), 7 => m::LexerRuleContext::accept(t, &mut v), _ => m::RegularContext::accept(t, &mut v),
          };
          (v.log, st(&*r))
        })
      }
    }
  };
}
visitors!(old, syntaxis::tool::syntaxis::syntaxis_context, syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor);
visitors!(v1, syntaxis::tool::v1::syntaxis_context, syntaxis::tool::v1::syntaxis_visitor::SyntaxisVisitor);

/// the specification
struct Model { log: Vec<Ev>, pol: Policy, full: bool }
impl Model {
  fn visit(&mut self, t: &RuleContext) -> String { if t.rule_index < 9 { self.method(t.rule_index, t) } else { self.children(t) } }
  fn method(&mut self, i: usize, t: &RuleContext) -> String {
    if !self.full { return self.children(t); }
    self.log.push(Ev::Method(i, p(t)));
    if self.pol.cut[i] { return format!("c{}", i); }
    let x = self.children(t);
    short(format!("m{}<{}>", i, x))
  }
  fn children(&mut self, t: &RuleContext) -> String {
    let mut cur = "d".to_string();
    for ch in &t.children {
      self.log.push(Ev::Ask(p(t), cur.clone()));
      if !self.pol.go_on(&cur) { break; }
      let r = match ch {
        ASTContext::Terminal(x) => { self.log.push(Ev::Term(p(x))); format!("t{}", x.symbol.token_type) },
        ASTContext::Error(x) => { self.log.push(Ev::Err(p(x))); format!("e{}", x.symbol.token_type) },
        ASTContext::Rule(x) => self.visit(x),
      };
      self.log.push(Ev::Agg(cur.clone(), r.clone()));
      cur = short(format!("{}.{}", cur, r));
    }
    cur
  }
}
/// Some visitors ask before every child; whether they also ask once more after the last one is not specified.
fn compare(what: &str, got: &(Vec<Ev>, String), exp: &(Vec<Ev>, String)) -> Result<(), String> {
  if got.1 != exp.1 { return Err(format!("{}: result {:?}, expected {:?}", what, got.1, exp.1)); }
  if let Some(i) = (0..got.0.len().max(exp.0.len())).find(|i| got.0.get(*i) != exp.0.get(*i)) { return Err(format!("{}: event {} is {:?}, expected {:?}", what, i, got.0.get(i), exp.0.get(i))); }
  Ok(())
}

fn gen(s: &mut Source, c: &mut Ctx) -> RuleContext {
  let o = TreeOpts { errors: true, rule_ids: 9, tok_types: 23, max_depth: if s.chance(1, 12) { 80 } else { 5 }, wild_text: false, ident_names: true };
  let t = gen_tree(s, &o);
  let mut t = trees::deepen(s, t);
  trees::alias_ids(s, &mut t);
  c.case(trees::show(&t));
  c.label_if(trees::has_error(&t), "error nodes");
  let d = trees::depth(&t);
  c.label_if(d > 10, "deeper than 10");
  c.label_if(d > 60, "deeper than 60");
  let mut ns = vec![]; trees::rules(&t, &mut ns);
  c.label_if(ns.iter().any(|n| n.rule_index > 8), "rule ids outside the grammar");
  c.nontrivial = count(&t) >= 4;
  t
}

pub fn c16(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let t = gen(s, c);
  let all = Policy { cut: [false; 9], stop_after: None, stop_on: None, asks: 0 };
  let mut pol = all.clone();
  if s.chance(1, 3) { let i = s.usize_below(9); pol.cut[i] = true; c.label("cuts a rule short"); }
  if s.chance(1, 3) { pol.stop_after = Some(s.size(6, 60)); c.label("stops after some children"); }
  if s.chance(1, 4) { pol.stop_on = Some(*s.pick(&['3', '5', 'e', 'm', 't', '1'])); c.label("stops depending on the result"); }
  for pl in [&all, &pol] {
    let mut m = Model { log: vec![], pol: pl.clone(), full: true };
    let r = m.visit(&t);
    let exp = (m.log, r);
    compare("hand-written visitor", &old::full(&t, pl.clone())?, &exp)?;
    compare("v1 visitor", &v1::full(&t, pl.clone())?, &exp)?;
    let mut m = Model { log: vec![], pol: pl.clone(), full: false };
    let r = m.visit(&t);
    let exp = (m.log, r);
    compare("hand-written visitor with default methods", &old::bare(&t, pl.clone())?, &exp)?;
    compare("v1 visitor with default methods", &v1::bare(&t, pl.clone())?, &exp)?;
    c.evals += 4;
  }
  // all defaults: leaves in document order, the last child's result wins
  let mut lv = vec![];
  fn evs(t: &RuleContext, o: &mut Vec<Ev>) -> String {
    let mut cur = "?".to_string();
    for ch in &t.children { cur = match ch { ASTContext::Rule(r) => evs(r, o), ASTContext::Terminal(x) => { o.push(Ev::Term(p(x))); format!("t{}", x.symbol.token_type) }, ASTContext::Error(x) => { o.push(Ev::Err(p(x))); format!("e{}", x.symbol.token_type) } } }
    cur
  }
  let r = evs(&t, &mut lv);
  compare("hand-written visitor, all defaults", &old::leafy(&t)?, &(lv.clone(), r.clone()))?;
  compare("v1 visitor, all defaults", &v1::leafy(&t)?, &(lv, r))?;
  if !old::nothing(&t)? || !v1::nothing(&t)? { return Err("a visitor without any method of its own does not return the default result".into()); }
  // typed accept
  let mut ns = vec![]; trees::rules(&t, &mut ns);
  let n = *s.pick(&ns);
  for i in 0..9 {
    let mut m = Model { log: vec![], pol: all.clone(), full: true };
    let r = m.method(i, n);
    let exp = (m.log, r);
    compare(&format!("hand-written accept as {}", crate::ebnf::RULES[i]), &old::accept(n, i, all.clone())?, &exp)?;
    compare(&format!("v1 accept as {}", crate::ebnf::RULES[i]), &v1::accept(n, i, all.clone())?, &exp)?;
    c.evals += 2;
  }
  Ok(())
}

// ------------------------------------------------------------------ C17

use syntaxis::tool::syntaxis::syntaxis_context as sc;
use syntaxis::tool::syntaxis::syntaxis_listener::SyntaxisListener;
use syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker;

#[derive(Clone, PartialEq, Debug)]
enum Le { Every(bool, P), Rule(bool, usize, P), Term(bool, P), Err(bool, P) } // true = enter
struct Rec(Vec<Le>);
macro_rules! pair { ($en:ident, $ex:ident, $tr:ident, $i:expr) => {
  fn $en(&mut self, c: &dyn sc::$tr) { self.0.push(Le::Rule(true, $i, p(c.as_rule()))) }
  fn $ex(&mut self, c: &dyn sc::$tr) { self.0.push(Le::Rule(false, $i, p(c.as_rule()))) }
} }
impl SyntaxisListener for Rec {
  pair!(enter_rule_list, exit_rule_list, RuleListContext, 0);
  pair!(enter_parser_rule, exit_parser_rule, ParserRuleContext, 1);
  pair!(enter_block, exit_block, BlockContext, 2);
  pair!(enter_alternative, exit_alternative, AlternativeContext, 3);
  pair!(enter_epsilon, exit_epsilon, EpsilonContext, 4);
  pair!(enter_element, exit_element, ElementContext, 5);
  pair!(enter_ebnf_suffix, exit_ebnf_suffix, EbnfSuffixContext, 6);
  pair!(enter_lexer_rule, exit_lexer_rule, LexerRuleContext, 7);
  pair!(enter_regular, exit_regular, RegularContext, 8);
  fn enter_every_rule(&mut self, c: &RuleContext) { self.0.push(Le::Every(true, p(c))) }
  fn exit_every_rule(&mut self, c: &RuleContext) { self.0.push(Le::Every(false, p(c))) }
  fn enter_terminal(&mut self, c: &TerminalContext) { self.0.push(Le::Term(true, p(c))) }
  fn exit_terminal(&mut self, c: &TerminalContext) { self.0.push(Le::Term(false, p(c))) }
  fn enter_errornode(&mut self, c: &ErrorContext) { self.0.push(Le::Err(true, p(c))) }
  fn exit_errornode(&mut self, c: &ErrorContext) { self.0.push(Le::Err(false, p(c))) }
}
struct Silent;
impl SyntaxisListener for Silent {}
struct Walk;
impl SyntaxisWalker for Walk {}

fn expect(t: &RuleContext, o: &mut Vec<Le>) {
  o.push(Le::Every(true, p(t)));
  if t.rule_index < 9 { o.push(Le::Rule(true, t.rule_index, p(t))) }
  for ch in &t.children {
    match ch {
      ASTContext::Terminal(x) => { o.push(Le::Term(true, p(x))); o.push(Le::Term(false, p(x))) },
      ASTContext::Error(x) => { o.push(Le::Err(true, p(x))); o.push(Le::Err(false, p(x))) },
      ASTContext::Rule(r) => expect(r, o),
    }
  }
  if t.rule_index < 9 { o.push(Le::Rule(false, t.rule_index, p(t))) }
  o.push(Le::Every(false, p(t)));
}

pub fn c17(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let t = gen(s, c);
  let mut exp = vec![];
  expect(&t, &mut exp);
  let got = imp("walk", || { let mut r = Rec(vec![]); Walk.walk(&mut r, &t); r.0 })?;
  if let Some(i) = (0..got.len().max(exp.len())).find(|i| got.get(*i) != exp.get(*i)) { return Err(format!("event {} of {} is {:?}, expected {:?}", i, exp.len(), got.get(i), exp.get(i))); }
  imp("walk with an empty listener", || Walk.walk(&mut Silent, &t))?;
  let mut ns = vec![]; trees::rules(&t, &mut ns);
  let n = *s.pick(&ns);
  // dispatch on its own
  for n in ns.iter().take(20) {
    let e = imp("enter", || { let mut r = Rec(vec![]); r.enter(n); r.0 })?;
    let x = imp("exit", || { let mut r = Rec(vec![]); r.exit(n); r.0 })?;
    let ee: Vec<Le> = if n.rule_index < 9 { vec![Le::Rule(true, n.rule_index, p(*n))] } else { vec![] };
    let ex: Vec<Le> = if n.rule_index < 9 { vec![Le::Rule(false, n.rule_index, p(*n))] } else { vec![] };
    if e != ee || x != ex { return Err(format!("dispatch of a node of rule {}: enter {:?}, exit {:?}", n.rule_index, e, x)); }
    c.evals += 2;
  }
  macro_rules! typed { ($($i:expr, $tr:ident);*) => { $(
    let e = imp("typed enter", || { let mut r = Rec(vec![]); sc::$tr::enter(n, &mut r); r.0 })?;
    let x = imp("typed exit", || { let mut r = Rec(vec![]); sc::$tr::exit(n, &mut r); r.0 })?;
    if e != vec![Le::Rule(true, $i, p(n))] { return Err(format!("entering through {} calls {:?}", stringify!($tr), e)); }
    if x != vec![Le::Rule(false, $i, p(n))] { return Err(format!("leaving through {} calls {:?}", stringify!($tr), x)); }
    c.evals += 2;
  )* } }
  typed!(0, RuleListContext; 1, ParserRuleContext; 2, BlockContext; 3, AlternativeContext; 4, EpsilonContext; 5, ElementContext; 6, EbnfSuffixContext; 7, LexerRuleContext; 8, RegularContext);
  Ok(())
}
