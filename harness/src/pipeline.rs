//! Driving the code under test: grammar trees -> grammars -> tables -> parsers, and grammar texts -> trees.

use crate::cfg::{Cfg, Sym};
use crate::ebnf::{self, rule, Build, Gram, Nums};
use crate::engine::{cap_reset, cap_take, imp, Source};
use crate::lexmodel::{self, Which};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::{Position, Token};
use syntaxis::runtime::vocabulary::Vocabulary;
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};
use syntaxis::tool::serde_ast;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};
use syntaxis::tool::visitor::lexer_rule_visitor::LexerRuleData;

pub type Table = HashMap<(usize, usize), Rc<Production>>;

pub struct Built { pub grammar: Grammar, pub data: Vec<LexerRuleData>, pub tokens_end: usize, pub rules_end: usize, pub printed_symbols: String, pub printed: String }

/// The three passes, exactly as the shipped program runs them.
pub fn build(ast: &RuleContext) -> Result<Built, String> {
  imp("the grammar passes", || {
    let mut grammar = Grammar::new("g");
    let (tok0, data0);
    {
      let mut v = StringLiteralToTokenVisitor::new(&mut grammar, 2);
      RuleListContext::accept(ast, &mut v);
      tok0 = v.next_token_id; data0 = v.data;
    }
    cap_reset();
    let (tokens_end, rules_end, data);
    {
      let mut v = SymbolVisitor::new(&mut grammar, tok0, 0, data0);
      RuleListContext::accept(ast, &mut v);
      tokens_end = v.next_token_id; rules_end = v.next_rule_id; data = v.data;
    }
    let printed_symbols = cap_take();
    {
      let mut v = ProductionVisitor::new(&mut grammar, rules_end);
      RuleListContext::accept(ast, &mut v);
    }
    let printed = cap_take();
    Built { grammar, data, tokens_end, rules_end, printed_symbols, printed }
  })
}

pub fn table(g: &Grammar) -> Result<Table, String> {
  imp("first/follow/table construction", || {
    let (f, pf) = g.first_set();
    let fo = g.follow_set(&f);
    g.ll1_table(&pf, &fo)
  })
}

pub fn sym(i: &ProductionItem) -> Sym { match i { ProductionItem::Terminal(t) => Sym::T(*t), ProductionItem::NonTerminal(n) => Sym::N(*n) } }

/// What the code under test says its productions are.
pub fn cfg_of(g: &Grammar) -> Cfg {
  let nts: BTreeSet<usize> = g.vocabulary.get_all_nonterminals().iter().copied().collect();
  let prods: BTreeSet<(usize, Vec<Sym>)> = g.productions.iter().map(|p| (p.left, p.right.iter().map(sym).collect())).collect();
  Cfg { nts, prods: prods.into_iter().collect() }
}

pub fn item(s: &Sym) -> ProductionItem { match s { Sym::T(t) => ProductionItem::Terminal(*t), Sym::N(n) => ProductionItem::NonTerminal(*n) } }

/// Feed a plain grammar through the public API.
pub fn grammar_of(c: &Cfg) -> Grammar {
  let mut g = Grammar::new("g");
  for n in &c.nts { if n % 3 == 2 { g.vocabulary.add_unnamed_nonterminal(*n); } else { g.vocabulary.add_named_nonterminal(*n, &format!("nt{}", n)); } }
  for (_, r) in &c.prods { for x in r { if let Sym::T(t) = x { g.vocabulary.add_terminal(*t, &format!("TT{}", t)); } } }
  for (l, r) in &c.prods { g.productions.insert(Production::new(*l, &r.iter().map(item).collect())); }
  g
}

pub fn voc_maps(v: &Vocabulary) -> (Vec<(usize, Option<String>)>, Vec<(usize, Option<String>)>) {
  let mut t: Vec<_> = v.get_all_terminals().iter().map(|i| (*i, v.get_terminal_name_by_id(*i))).collect();
  let mut n: Vec<_> = v.get_all_nonterminals().iter().map(|i| (*i, v.get_nonterminal_name_by_id(*i))).collect();
  t.sort(); n.sort();
  (t, n)
}

// ------------------------------------------------------------------ bundled description

pub fn bundled_tree() -> Result<RuleContext, String> {
  let f = std::fs::File::open("src/tool/syntaxis/syntaxis2.json").map_err(|e| format!("bundled grammar description cannot be opened: {}", e))?;
  imp("loading the bundled grammar description", || serde_ast::from_reader(f))?.map_err(|_| "the bundled grammar description is rejected by the loader".to_string())
}
pub fn bundled() -> Result<(Built, Table), String> {
  let t = bundled_tree()?;
  let b = build(&t)?;
  let tb = table(&b.grammar)?;
  Ok((b, tb))
}

pub fn lex_v1(text: &str) -> Result<Vec<Token>, String> {
  imp("v1 lexer", || syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer::new(text).scan_all_on_channel_tokens(0))
}
/// v1 lexer + v1 parser over the bundled description; Err on panic. Second value: everything printed.
pub fn parse_v1(text: &str) -> Result<(RuleContext, String), String> {
  let (b, tb) = bundled()?;
  cap_reset();
  let toks = lex_v1(text)?;
  let p = syntaxis::tool::v1::syntaxis_parser::SyntaxisParser::new(toks, tb, b.grammar.vocabulary);
  let t = imp("v1 parser", || p.parse())?;
  Ok((t, cap_take()))
}

/// Renumber the leaves of a v1 tree for the passes, which work on the numbering of the hand-written front end.
pub fn remap(t: &RuleContext) -> RuleContext {
  RuleContext { rule_name: t.rule_name.clone(), rule_index: t.rule_index, children: t.children.iter().map(|c| match c {
    ASTContext::Rule(r) => ASTContext::Rule(remap(r)),
    ASTContext::Terminal(x) => { let mut k = x.clone(); if let Some(i) = lexmodel::OLD_NAMES.iter().position(|n| *n == k.symbol.token_name) { k.symbol.token_type = i } ASTContext::Terminal(k) },
    ASTContext::Error(x) => ASTContext::Error(x.clone()),
  }).collect() }
}

// ------------------------------------------------------------------ writing grammar text with a layout

pub const SEPS: [&str; 6] = [":", "=", ":=", "::=", "->", "=>"];

#[derive(Clone, Copy, PartialEq)]
pub enum Layout { Tight, Normal, Wild }

/// Render a grammar as text and the tree (v1 numbering, with exact positions) that the text denotes.
pub fn write_text(g: &Gram, s: &mut Source, layout: Layout, mixed_seps: bool) -> (String, RuleContext) {
  let src = std::cell::RefCell::new(s);
  let text = std::cell::RefCell::new(String::new());
  let idx = std::cell::Cell::new(0usize);
  let mut prev_word = false;
  let tree = {
    let leaf = |name: &str, t: &str| -> Token {
      let mut out = text.borrow_mut();
      let word = name == "RULE_REF" || name == "TOKEN_REF";
      let need = prev_word && word;
      let mut s = src.borrow_mut();
      let gap = match layout {
        Layout::Tight => if need { " ".to_string() } else { String::new() },
        Layout::Normal => if out.is_empty() { String::new() } else if s.chance(1, 6) { "\n".to_string() } else { " ".to_string() },
        Layout::Wild => if need || s.chance(2, 3) { lexmodel::blank(&mut s, true) } else { String::new() },
      };
      if !gap.is_empty() { out.push_str(&gap); idx.set(idx.get() + 1); }
      prev_word = word;
      let start = out.len();
      out.push_str(t);
      let stop = out.len();
      let (l1, c1) = lexmodel::line_col(&out, start);
      let (l2, c2) = lexmodel::line_col(&out, stop);
      let k = Token { token_type: Nums::V1.of(name), token_name: name.to_string(), start: Position { line: l1, char_position: c1 }, stop: Position { line: l2, char_position: c2 },
        channel: 0, text: t.to_string(), token_index: idx.get(), char_start_index: start, char_stop_index: stop };
      idx.set(idx.get() + 1);
      k
    };
    let mut b = Build { nums: Nums::V1, leaf: Box::new(leaf) };
    let base = if mixed_seps { 0 } else { src.borrow_mut().usize_below(6) };
    b.gram(g, &mut || if mixed_seps { let mut s = src.borrow_mut(); SEPS[s.usize_below(6)] } else { SEPS[base] })
  };
  let mut out = text.into_inner();
  let s = src.into_inner();
  if layout != Layout::Tight && s.chance(1, 2) { let b = lexmodel::blank(s, true); out.push_str(&b); }
  (out, tree)
}

// ------------------------------------------------------------------ reference parser for grammar text

/// Recursive descent over the reference scanner's tokens (v1 family). None: not a grammar text.
pub fn ref_parse(text: &str) -> Option<RuleContext> {
  let m = lexmodel::model_lex(Which::V1, text);
  if m.consumed != text.len() { return None; }
  let toks: Vec<Token> = m.toks.iter().filter(|t| t.ty != 15).map(|t| {
    let (l1, c1) = lexmodel::line_col(text, t.start); let (l2, c2) = lexmodel::line_col(text, t.stop);
    Token { token_type: t.ty, token_name: t.name.clone(), start: Position { line: l1, char_position: c1 }, stop: Position { line: l2, char_position: c2 }, channel: 0, text: text[t.start..t.stop].to_string(), token_index: t.idx, char_start_index: t.start, char_stop_index: t.stop }
  }).collect();
  struct P { t: Vec<Token>, i: usize }
  impl P {
    fn ty(&self) -> &str { self.t.get(self.i).map(|t| t.token_name.as_str()).unwrap_or("") }
    fn eat(&mut self, n: &str) -> Option<ASTContext> { if self.ty() == n { self.i += 1; Some(ASTContext::Terminal(TerminalContext { symbol: self.t[self.i - 1].clone() })) } else { None } }
    fn list(&mut self) -> Option<RuleContext> {
      let mut c = vec![];
      while self.i < self.t.len() {
        let r = if self.ty() == "RULE_REF" { rule(1, vec![self.eat("RULE_REF")?, self.eat("COLON")?, ASTContext::Rule(self.block()?), self.eat("SEMI")?]) }
          else { let a = self.eat("TOKEN_REF")?; let b = self.eat("COLON")?; let r = rule(8, vec![self.eat("REGULAR_LITERAL")?]); rule(7, vec![a, b, ASTContext::Rule(r), self.eat("SEMI")?]) };
        c.push(ASTContext::Rule(r));
      }
      Some(rule(0, c))
    }
    fn block(&mut self) -> Option<RuleContext> {
      let mut c = vec![ASTContext::Rule(self.alt()?)];
      while let Some(o) = self.eat("OR") { c.push(o); c.push(ASTContext::Rule(self.alt()?)) }
      Some(rule(2, c))
    }
    fn alt(&mut self) -> Option<RuleContext> {
      if let Some(e) = self.eat("EPSILON") { return Some(rule(3, vec![ASTContext::Rule(rule(4, vec![e]))])); }
      let mut c = vec![];
      while matches!(self.ty(), "RULE_REF" | "TOKEN_REF" | "STRING_LITERAL" | "LPAREN") { c.push(ASTContext::Rule(self.elem()?)) }
      if c.is_empty() { None } else { Some(rule(3, c)) }
    }
    fn elem(&mut self) -> Option<RuleContext> {
      let mut c = vec![];
      if let Some(l) = self.eat("LPAREN") { c.push(l); c.push(ASTContext::Rule(self.block()?)); c.push(self.eat("RPAREN")?) }
      else { let n = self.ty().to_string(); c.push(self.eat(&n)?) }
      if let Some(x) = self.eat("STAR").or_else(|| self.eat("PLUS")).or_else(|| self.eat("QUESTION")) {
        let mut k = vec![x];
        if let Some(q) = self.eat("QUESTION") { k.push(q) }
        c.push(ASTContext::Rule(rule(6, k)));
      }
      Some(rule(5, c))
    }
  }
  let mut p = P { t: toks, i: 0 };
  p.list()
}

// ------------------------------------------------------------------ token streams for sentences

/// Turn token types into tokens carrying recognisable data, plus the end marker.
pub fn tokens_for(ids: &[usize], g: &Gram, stop: bool) -> Vec<Token> {
  let names = g.token_names();
  let mut out = Vec::new();
  let mut off = 0;
  for (i, id) in ids.iter().enumerate() {
    let name = if *id >= 2 && id - 2 < names.len() { names[id - 2].clone() } else { format!("_{}", id) };
    let text = format!("tx{}", i);
    let e = off + text.len();
    out.push(Token { token_type: *id, token_name: name, start: Position { line: i, char_position: off }, stop: Position { line: i, char_position: e }, channel: i % 3, text, token_index: i * 2, char_start_index: off, char_stop_index: e });
    off = e + 1;
  }
  if stop { out.push(Token { token_type: 1, token_name: "_STOP".into(), start: Position { line: 0, char_position: 0 }, stop: Position { line: 0, char_position: 0 }, channel: 0, text: "_STOP".into(), token_index: ids.len() * 2, char_start_index: off, char_stop_index: off }) }
  out
}

/// expected syntax tree of a sampled sentence
pub fn expect_tree(n: &ebnf::Node, names: &[String], toks: &[Token], pos: &mut usize) -> ASTContext {
  match n {
    ebnf::Node::T(_) => { *pos += 1; ASTContext::Terminal(TerminalContext { symbol: toks[*pos - 1].clone() }) },
    ebnf::Node::R(i, c) => ASTContext::Rule(RuleContext { rule_index: *i, rule_name: names[*i].clone(), children: c.iter().map(|x| expect_tree(x, names, toks, pos)).collect() }),
  }
}
pub fn expect_rule(n: &ebnf::Node, names: &[String], toks: &[Token]) -> RuleContext {
  let mut p = 0;
  match expect_tree(n, names, toks, &mut p) { ASTContext::Rule(r) => r, _ => unreachable!() }
}

/// what a token looks like, apart from its type, must not matter: texts that are names of tokens, empty, long; odd positions
pub fn dress(s: &mut Source, toks: &mut [Token], g: &Gram) {
  if !s.chance(1, 2) { return; }
  let names = g.token_names();
  for t in toks {
    if s.chance(1, 2) { continue; }
    t.text = match s.usize_below(8) { 0..=3 => s.pick(&names).clone(), 4 => String::new(), 5 => if s.chance(1, 3) { s.dict_str().to_string() } else { s.pick(&["_STOP", "_START", "ε", ";", "<missing>", "0", "1", "2"]).to_string() }, 6 => t.token_name.clone(), _ => "x".repeat(s.size(5, 500)) };
    if s.chance(1, 4) { t.channel = if s.chance(1, 8) { s.special(1 << 40) } else { s.usize_below(4) } }
    if s.chance(1, 4) { t.token_index = if s.chance(1, 8) { s.special(1 << 40) } else { s.usize_below(5) } }
    if s.chance(1, 4) { t.char_start_index = s.usize_below(30); t.char_stop_index = t.char_start_index + s.usize_below(3) }
    if s.chance(1, 8) { t.start = Position { line: 0, char_position: 0 }; t.stop = t.start.clone() }
  }
}
