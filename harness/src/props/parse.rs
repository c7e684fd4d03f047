//! C11 C12 C13 C14 C24: parsers.
use crate::cfg::{Cfg, Sym};
use crate::ebnf::*;
use crate::engine::*;
use crate::pipeline::*;
use crate::trees;
use std::collections::{BTreeSet, HashMap};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer as V1Lexer;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser as V1Parser;

/// Both table-driven parsers on the same tokens; each result is Ok(tree) or Err(panic), with what was printed.
fn both(tree: &RuleContext, toks: &[Token]) -> Result<Vec<(&'static str, Result<RuleContext, String>, String)>, String> {
  let mut out = vec![];
  for which in ["LL1Parser", "SyntaxisParser"] {
    let b = build(tree)?;
    cap_reset();
    let t = table(&b.grammar)?;
    let noise = cap_take();
    if !noise.trim().is_empty() { return Err(format!("table construction of an LL(1) grammar printed {:?}", noise)); }
    let r = run_one(which, b.grammar, t, toks.to_vec());
    let o = cap_take();
    out.push((which, r, o));
  }
  Ok(out)
}
fn run_one(which: &str, g: Grammar, t: Table, toks: Vec<Token>) -> Result<RuleContext, String> {
  if which == "LL1Parser" { let p = LL1Parser::new(toks, t, g); imp("LL1Parser::parse", || p.parse()) }
  else { let p = V1Parser::new(toks, t, g.vocabulary); imp("SyntaxisParser::parse", || p.parse()) }
}

fn ll1_case(s: &mut Source, c: &mut Ctx) -> Result<Gram, String> {
  let g = gen_ll1(s);
  if !desugar(&g).cfg.ll1_conflicts().is_empty() { return Err("HARNESS:generated grammar is not LL(1)".into()); }
  super::gram::labels(&g, c);
  Ok(g)
}
fn sentence(s: &mut Source, g: &Gram) -> (Node, Vec<usize>) {
  let (b, r) = match s.weighted(&[160, 60, 20, 3]) { 0 => (20, 4), 1 => (100, 12), 2 => (400, 80), _ => (1500, 700) };
  let mut sm = Sampler::new(g, b, r);
  let n = sm.rule(s, 0);
  let mut w = vec![];
  frontier(&n, &mut w);
  (n, w)
}

/// a sentence of tens of thousands of tokens, over a list rule
fn c11_long(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let n = s.range(64_000, 70_000);
  let tk = |x: &str, suf| Elem { atom: Atom::Tok(x.into()), suf, lazy: false };
  let rl = |x: &str, suf| Elem { atom: Atom::Rule(x.into()), suf, lazy: false };
  let toks_d = vec![Def::Token("ITEM".into(), "i".into()), Def::Token("SEP".into(), "s".into()), Def::Token("END".into(), "e".into())];
  let (i, p, e) = (2, 3, 4);
  let flat = s.chance(1, 2);
  // list: row list | END   row: ITEM row | SEP  -- or, with `flat`, row: ITEM* SEP; a few hundred rows of a few hundred tokens
  let row = if flat { vec![Alt::Seq(vec![tk("ITEM", Suf::Star), tk("SEP", Suf::None)])] } else { vec![Alt::Seq(vec![tk("ITEM", Suf::None), rl("row", Suf::None)]), Alt::Seq(vec![tk("SEP", Suf::None)])] };
  let mut defs = vec![Def::Rule("list".into(), vec![Alt::Seq(vec![rl("row", Suf::None), rl("list", Suf::None)]), Alt::Seq(vec![tk("END", Suf::None)])]), Def::Rule("row".into(), row)];
  let mut node = Node::R(0, vec![Node::T(e)]);
  let mut k = 0;
  while k < n {
    let m = s.range(150, 400);
    k += m + 1;
    let r = if flat { let mut v: Vec<Node> = (0..m).map(|_| Node::T(i)).collect(); v.push(Node::T(p)); Node::R(1, v) } else { let mut r = Node::R(1, vec![Node::T(p)]); for _ in 0..m { r = Node::R(1, vec![Node::T(i), r]) } r };
    node = Node::R(0, vec![r, node]);
  }
  defs.extend(toks_d);
  let g = Gram { defs };
  let tree = tree_old(&g);
  let names = g.rule_names();
  let mut w = vec![];
  frontier(&node, &mut w);
  c.case(format!("{}a sentence of {} tokens", g.show(), w.len()));
  let toks = tokens_for(&w, &g, true);
  let exp = expect_rule(&node, &names, &toks);
  c.evals += 2;
  for (who, r, out) in both(&tree, &toks)? {
    let t = r.map_err(|e| format!("{} fails on a sentence of {} tokens: {}", who, w.len(), e))?;
    if !out.trim().is_empty() { return Err(format!("{} complains {:?} about a sentence of {} tokens", who, out.chars().take(300).collect::<String>(), w.len())); }
    trees::diff(&t, &exp, true).map_err(|e| format!("{} on a sentence of {} tokens: {}", who, w.len(), e))?;
  }
  c.label("sentence of 60000+ tokens");
  c.nontrivial = true;
  Ok(())
}

pub fn c11(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  if s.chance(1, 4000) { return c11_long(s, c); }
  let g = ll1_case(s, c)?;
  let tree = tree_old(&g);
  let names = g.rule_names();
  c.case(g.show());
  let mut long = 0;
  for _ in 0..3 {
    let (node, w) = sentence(s, &g);
    if w.len() > 3000 { continue; }
    let mut toks = tokens_for(&w, &g, true);
    dress(s, &mut toks, &g);
    let exp = expect_rule(&node, &names, &toks);
    if long < w.len() { long = w.len(); c.case(format!("{}sentence {:?}", g.show(), w)); }
    c.evals += 2;
    for (who, r, out) in both(&tree, &toks)? {
      let t = r.map_err(|e| format!("{} fails on the sentence {:?}: {}", who, w, e))?;
      if !out.trim().is_empty() { return Err(format!("{} complains {:?} about the sentence {:?}", who, out, w)); }
      trees::diff(&t, &exp, true).map_err(|e| format!("{} on the sentence {:?}: {} (got {} expected {})", who, w, e, trees::show(&t), trees::show(&exp)))?;
    }
  }
  c.label_if(long >= 20, "sentence of 20+ tokens");
  c.label_if(long == 0, "empty sentences only");
  c.nontrivial = long >= 2;
  Ok(())
}

/// rule bodies with rule references as opaque symbols, to validate one node of a tree at a time
fn one_level(g: &Gram) -> Cfg {
  const OFF: usize = 1_000_000;
  let mut cfg = desugar(g).cfg;
  let n = g.rule_names().len();
  for p in &mut cfg.prods { for x in &mut p.1 { if let Sym::N(i) = x { if *i < n { *x = Sym::T(OFF + *i) } } } }
  cfg
}
fn validate(t: &RuleContext, lvl: &Cfg, names: &[String], toks: &[Token], pos: &mut usize, budget: &mut usize) -> Result<(), String> {
  if t.rule_index >= names.len() || names[t.rule_index] != t.rule_name { return Err(format!("node {}#{} is no rule of the grammar", t.rule_name, t.rule_index)); }
  let mut w = vec![];
  for ch in &t.children {
    match ch {
      ASTContext::Rule(r) => w.push(1_000_000 + r.rule_index),
      ASTContext::Terminal(x) => w.push(x.symbol.token_type),
      ASTContext::Error(_) => return Err("error node in a silently accepted tree".into()),
    }
  }
  if w.len() * w.len() * 4 < *budget {
    *budget -= w.len() * w.len() * 4;
    if !lvl.recognises(t.rule_index, &w) { return Err(format!("the children of a {} node are no right side of that rule: {:?}", t.rule_name, w)); }
  }
  for ch in &t.children {
    match ch {
      ASTContext::Rule(r) => validate(r, lvl, names, toks, pos, budget)?,
      ASTContext::Terminal(x) => {
        if *pos >= toks.len() || !trees::same_token(&x.symbol, &toks[*pos]) { return Err(format!("leaf {} is not input token {}", x.symbol, *pos)); }
        *pos += 1;
      },
      _ => {},
    }
  }
  Ok(())
}

pub fn c12(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let g = ll1_case(s, c)?;
  let tree = tree_old(&g);
  let names = g.rule_names();
  let lvl = one_level(&g);
  let nt = g.token_names().len();
  c.case(g.show());
  let mut rejected = 0; let mut silent = 0;
  for k in 0..3 {
    let (_, mut w) = sentence(s, &g);
    if w.len() > 400 { w.truncate(400) }
    let kind = if k == 0 { s.usize_below(7) } else { 1 + s.usize_below(6) };
    let rt = |s: &mut Source| 2 + s.usize_below(nt);
    match kind {
      0 => {},
      1 if !w.is_empty() => { let i = s.usize_below(w.len()); w.remove(i); },
      2 => { let i = s.usize_below(w.len() + 1); let t = rt(s); w.insert(i, t) },
      3 if !w.is_empty() => { let i = s.usize_below(w.len()); w[i] = rt(s) },
      4 if w.len() >= 2 => { let i = s.usize_below(w.len() - 1); w.swap(i, i + 1) },
      5 => { let n = s.usize_below(w.len() + 1); w.truncate(n) },
      _ => { let n = s.size(4, 12); w = (0..n).map(|_| rt(s)).collect() },
    }
    // the end marker is normally last; sometimes it is missing or misplaced
    let mode = s.weighted(&[10, 1, 1]);
    let mut full = w.clone();
    if mode == 0 { full.push(1) } else if mode == 2 { let i = s.usize_below(full.len() + 1); full.insert(i, 1); }
    if full.is_empty() { full.push(1) }
    let mut toks = tokens_for(&full, &g, false);
    for t in &mut toks { if t.token_type == 1 { t.token_name = "_STOP".into() } }
    dress(s, &mut toks, &g);
    c.evals += 2;
    // what a predictive parser over these very productions must do; sharing of anonymous rules does not matter here
    let ic = cfg_of(&build(&tree)?.grammar);
    let refuse = ic.ll1_conflicts().is_empty() && ic.predict(0, &full).is_err();
    c.case(format!("{}tokens {:?}", g.show(), full));
    for (who, r, out) in both(&tree, &toks)? {
      match r {
        Err(_) => { rejected += 1 },
        Ok(t) => {
          if out.trim().is_empty() {
            silent += 1;
            if refuse { return Err(format!("{} silently accepts {:?}, which cannot be derived: {}", who, full, trees::show(&t))); }
            let mut pos = 0; let mut budget = 200_000;
            if t.rule_index != 0 { return Err(format!("{} returned a {} tree", who, t.rule_name)); }
            validate(&t, &lvl, &names, &toks, &mut pos, &mut budget).map_err(|e| format!("{} silently accepts {:?}: {} in {}", who, full, e, trees::show(&t)))?;
          } else { rejected += 1 }
        },
      }
    }
  }
  c.label_if(rejected > 0, "rejected or complained");
  c.label_if(silent > 0, "silently accepted");
  c.nontrivial = rejected > 0;
  Ok(())
}

// ------------------------------------------------------------------ grammar text

pub fn text_gram(s: &mut Source, lits: bool, body: bool) -> Gram {
  let mut o = super::gram::opts(s, true, true);
  o.lits = lits;
  let mut g = gen_gram(s, &o);
  if s.chance(1, 30) { g.defs.truncate(s.usize_below(2)); }
  // deep nesting now and then
  if s.chance(1, 12) {
    let d = s.range(3, 40);
    let tn = g.token_names();
    if let Some(t) = tn.first().cloned() {
      let mut e = Elem { atom: Atom::Tok(t), suf: Suf::None, lazy: false };
      for _ in 0..d { let suf = match s.usize_below(4) { 0 => Suf::Star, 1 => Suf::Opt, 2 => Suf::Plus, _ => Suf::None }; let lazy = suf != Suf::None && s.chance(1, 3); e = Elem { atom: Atom::Group(vec![Alt::Seq(vec![e])]), suf, lazy } }
      g.defs.push(Def::Rule("deep_rule".into(), vec![Alt::Seq(vec![e])]));
    }
  }
  // very wide rules and lists of rules now and then
  if s.chance(1, 60) {
    let n = s.range(200, 700);
    let tn = g.token_names();
    if let Some(t) = tn.first().cloned() {
      let e = |i: usize| Elem { atom: if i % 7 == 3 { Atom::Rule("wide_rule".into()) } else { Atom::Tok(t.clone()) }, suf: if i % 5 == 2 { Suf::Star } else { Suf::None }, lazy: false };
      match s.usize_below(3) {
        0 => g.defs.push(Def::Rule("wide_rule".into(), vec![Alt::Seq((0..n).map(e).collect())])),
        1 => g.defs.push(Def::Rule("wide_rule".into(), (0..n).map(|i| Alt::Seq(vec![e(i)])).collect())),
        _ => { g.defs.push(Def::Rule("wide_rule".into(), vec![Alt::Eps])); for i in 0..n { g.defs.push(Def::Token(format!("WIDE{}", i), format!("w{}", i))) } },
      }
    }
  }
  if body {
    for d in &mut g.defs {
      if let Def::Token(_, p) = d {
        if s.chance(1, 2) {
          let t = if s.chance(1, 2) { crate::lexmodel::regular_lit_text(s, 20) } else { let d = 2; let r = crate::rx::gen(s, d); format!("/{}/", r.text()) };
          let mut b = t[1..t.len() - 1].to_string();
          if b.ends_with('\\') { b.push('z') }
          if b.is_empty() { b.push('q') }
          *p = b;
        }
      }
    }
  }
  g
}

/// words that the text form cannot carry as rule names
pub fn text_safe(g: &mut Gram) {
  fn fix(b: &mut Block, from: &str) { for a in b { if let Alt::Seq(v) = a { for e in v { match &mut e.atom { Atom::Rule(n) if n == from => n.push('_'), Atom::Group(b) => fix(b, from), _ => {} } } } } }
  let _ = fix;
  for d in &mut g.defs { if let Def::Rule(_, b) = d { fix(b, "fragment") } }
  for d in &mut g.defs { if let Def::Rule(n, _) = d { if n == "fragment" { n.push('_') } } }
}

pub fn c13(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let g = text_gram(s, true, true);
  let layout = [Layout::Normal, Layout::Tight, Layout::Wild][s.weighted(&[3, 2, 4])];
  let mixed = s.chance(1, 2);
  let (text, exp) = write_text(&g, s, layout, mixed);
  c.case(format!("{:?}", text));
  super::gram::labels(&g, c);
  c.label(match layout { Layout::Tight => "tight layout", Layout::Normal => "normal layout", Layout::Wild => "wild layout" });
  c.label_if(text.len() > 1500, "text over 1500 bytes");
  c.label_if(text.contains("wide_rule"), "very wide rule or list");
  c.label_if(text.contains('\''), "string literals");
  if let Some(r) = ref_parse(&text) { trees::diff(&r, &exp, true).map_err(|e| format!("HARNESS:writer and reference parser disagree: {}", e))? } else { return Err(format!("HARNESS:reference parser rejects {:?}", text)) }
  let (t, out) = parse_v1(&text)?;
  if !out.trim().is_empty() { return Err(format!("complaint {:?}", out)); }
  trees::diff(&t, &exp, true)?;
  c.nontrivial = g.defs.len() >= 2 && text.len() > 20;
  Ok(())
}

/// change a text in a few places, by characters, by lexemes or by lines
fn damage_text(s: &mut Source, text: &str) -> String {
  let m = crate::lexmodel::model_lex(crate::lexmodel::Which::V1, text);
  let mut parts: Vec<String> = m.toks.iter().map(|t| text[t.start..t.stop].to_string()).collect();
  if m.consumed < text.len() { parts.push(text[m.consumed..].to_string()) }
  for _ in 0..1 + s.usize_below(3) {
    if parts.is_empty() { parts.push(String::new()) }
    let i = s.usize_below(parts.len());
    match s.weighted(&[4, 3, 3, 3, 2, 2, 2, 1]) {
      0 => { parts.remove(i); },
      1 => { let x = s.pick(&[";", "|", "(", ")", "*", "+", "?", ":", "::=", "epsilon", "ε", "aa", "AA", "'x'", "/x/", " ", "=>", "->"]).to_string(); parts.insert(i, x) },
      2 => { let k = parts[s.usize_below(parts.len())].clone(); parts[i] = k },
      3 => { let k = parts[i].clone(); parts.insert(i, k) },
      4 => { let j = s.usize_below(parts.len()); parts.swap(i, j) },
      5 => { // one character
        let mut c: Vec<char> = parts[i].chars().collect();
        if !c.is_empty() { let k = s.usize_below(c.len()); match s.usize_below(3) { 0 => { c.remove(k); }, 1 => { let x = crate::lexmodel::any_char(s); c.insert(k, x) }, _ => c[k] = crate::lexmodel::any_char(s) } }
        parts[i] = c.into_iter().collect();
      },
      6 => parts.truncate(i),
      _ => { let x = crate::lexmodel::lexer_input(s, crate::lexmodel::Which::V1); let x: String = x.chars().take(60).collect(); parts.insert(i, x) },
    }
  }
  parts.concat()
}

pub fn c30(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let text = if s.chance(1, 8) { let x = crate::lexmodel::lexer_input(s, crate::lexmodel::Which::V1); if x.len() > 3000 { return Ok(()); } x } else {
    let g = text_gram(s, true, true);
    let layout = [Layout::Normal, Layout::Tight, Layout::Wild][s.weighted(&[3, 2, 2])];
    let mixed = s.chance(1, 2);
    let (text, _) = write_text(&g, s, layout, mixed);
    if text.len() > 20_000 { return Ok(()); }
    damage_text(s, &text)
  };
  c.case(format!("{:?}", text));
  let exp = ref_parse(&text);
  let lexed = crate::lexmodel::model_lex(crate::lexmodel::Which::V1, &text).consumed == text.len();
  let got = parse_v1(&text);
  c.label(if exp.is_some() { "still a grammar" } else if lexed { "wrong order of tokens" } else { "not even tokens" });
  match (exp, got) {
    (None, Ok((t, out))) => if out.trim().is_empty() { return Err(format!("a text that is no grammar is accepted without a word: {}", trees::show(&t))); },
    (None, Err(e)) => { c.label_if(e.contains("timeout"), "timeout"); c.label("fails"); },
    (Some(_), Err(e)) => return Err(format!("a grammar is refused: {}", e)),
    (Some(exp), Ok((t, out))) => {
      if !out.trim().is_empty() { return Err(format!("complaint {:?} about a grammar", out)); }
      trees::diff(&t, &exp, true)?;
    },
  }
  c.nontrivial = text.trim().len() >= 8;
  Ok(())
}

/// grammar text -> (build result, table) through the tool's own front end
fn front_end(text: &str) -> Result<Built, String> {
  let (t, out) = parse_v1(text)?;
  if !out.trim().is_empty() { return Err(format!("complaint {:?} about the grammar text", out)); }
  build(&remap(&t))
}

fn gram_of_tree(t: &RuleContext) -> Gram {
  fn leaf(c: &ASTContext) -> (String, String) { match c { ASTContext::Terminal(t) => (t.symbol.token_name.clone(), t.symbol.text.clone()), _ => (String::new(), String::new()) } }
  fn blk(r: &RuleContext) -> Block { r.children.iter().filter_map(|c| if let ASTContext::Rule(a) = c { Some(alt(a)) } else { None }).collect() }
  fn alt(r: &RuleContext) -> Alt {
    let rs: Vec<&RuleContext> = r.children.iter().filter_map(|c| if let ASTContext::Rule(a) = c { Some(a) } else { None }).collect();
    if rs.len() == 1 && rs[0].rule_name == "epsilon" { return Alt::Eps; }
    Alt::Seq(rs.into_iter().map(elem).collect())
  }
  fn elem(r: &RuleContext) -> Elem {
    let mut atom = None; let mut suf = Suf::None; let mut lazy = false;
    for c in &r.children {
      match c {
        ASTContext::Rule(k) if k.rule_name == "block" => atom = Some(Atom::Group(blk(k))),
        ASTContext::Rule(k) => { let f = leaf(&k.children[0]).0; suf = match f.as_str() { "STAR" => Suf::Star, "PLUS" => Suf::Plus, _ => Suf::Opt }; lazy = k.children.len() > 1 },
        t => { let (n, x) = leaf(t); match n.as_str() { "TOKEN_REF" => atom = Some(Atom::Tok(x)), "RULE_REF" => atom = Some(Atom::Rule(x)), "STRING_LITERAL" => atom = Some(Atom::Lit(x)), _ => {} } },
      }
    }
    Elem { atom: atom.unwrap(), suf, lazy }
  }
  let mut defs = vec![];
  for c in &t.children {
    if let ASTContext::Rule(r) = c {
      let name = leaf(&r.children[0]).1;
      if let ASTContext::Rule(k) = &r.children[2] {
        if r.rule_name == "parser_rule" { defs.push(Def::Rule(name, blk(k))) } else { let x = leaf(&k.children[0]).1; defs.push(Def::Token(name, x[1..x.len() - 1].to_string())) }
      }
    }
  }
  Gram { defs }
}

pub fn c14(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  match s.weighted(&[60, 12, 3]) {
    0 => {
      let mut g = ll1_case(s, c)?;
      text_safe(&mut g);
      let layout = [Layout::Normal, Layout::Tight, Layout::Wild][s.usize_below(3)];
      let (text, _) = write_text(&g, s, layout, true);
      c.case(format!("{:?}", text));
      c.label("random LL(1) grammar text");
      let names = g.rule_names();
      let b = front_end(&text)?;
      for (i, n) in names.iter().enumerate() { if b.grammar.vocabulary.get_nonterminal_id_by_name(n) != Some(i) { return Err(format!("rule {} got id {:?}, written as number {}", n, b.grammar.vocabulary.get_nonterminal_id_by_name(n), i)); } }
      for (i, n) in g.token_names().iter().enumerate() {
        if b.grammar.vocabulary.get_terminal_id_by_name(n) != Some(i + 2) { return Err(format!("token {} got type {:?}, written as number {}", n, b.grammar.vocabulary.get_terminal_id_by_name(n), i + 2)); }
        if b.data.get(i).map(|d| (d.token_type, d.token_name.as_str())) != Some((i + 2, n.as_str())) { return Err(format!("lexer data entry {} is {:?}", i, b.data.get(i))); }
      }
      let mut any = false;
      for _ in 0..2 {
        let (node, w) = sentence(s, &g);
        if w.len() > 1000 { continue; }
        any |= w.len() >= 2;
        let toks = tokens_for(&w, &g, true);
        let exp = expect_rule(&node, &names, &toks);
        for which in ["LL1Parser", "SyntaxisParser"] {
          let b = front_end(&text)?;
          cap_reset();
          let t = table(&b.grammar)?;
          let r = run_one(which, b.grammar, t, toks.clone()).map_err(|e| format!("parser built from the text fails on {:?}: {}", w, e))?;
          let out = cap_take();
          if !out.trim().is_empty() { return Err(format!("parser built from the text complains {:?} about {:?}", out, w)); }
          trees::diff(&r, &exp, true).map_err(|e| format!("parser built from the text, on {:?}: {}", w, e))?;
          c.evals += 1;
        }
      }
      c.nontrivial = any;
    },
    1 => {
      // the tool's own grammar, in any layout
      let bt = bundled_tree()?;
      let g = gram_of_tree(&bt);
      let layout = [Layout::Normal, Layout::Tight, Layout::Wild][s.usize_below(3)];
      let mixed = s.chance(1, 2);
      let (text, _) = write_text(&g, s, layout, mixed);
      c.case(format!("own grammar {:?}", text));
      c.label("own grammar text");
      let b = front_end(&text)?;
      let r = build(&bt)?;
      if voc_maps(&b.grammar.vocabulary) != voc_maps(&r.grammar.vocabulary) { return Err("the tool's own grammar text gives another vocabulary than the bundled description".into()); }
      if b.grammar.productions != r.grammar.productions { return Err("the tool's own grammar text gives other productions than the bundled description".into()); }
      if b.data.len() != r.data.len() || b.data.iter().zip(&r.data).any(|(x, y)| x.token_type != y.token_type || x.token_name != y.token_name || x.regex != y.regex) { return Err("the tool's own grammar text gives other lexer data than the bundled description".into()); }
      // and the regenerated front end parses other grammar texts as the bundled one does
      let other = text_gram(s, true, false);
      let (ot, exp) = write_text(&other, s, Layout::Normal, true);
      let toks = lex_v1(&ot)?;
      cap_reset();
      let t = table(&b.grammar)?;
      let t = run_one("SyntaxisParser", b.grammar, t, toks)?;
      let out = cap_take();
      if !out.trim().is_empty() { return Err(format!("regenerated front end complains {:?}", out)); }
      trees::diff(&t, &exp, true).map_err(|e| format!("regenerated front end on {:?}: {}", ot, e))?;
      c.nontrivial = true;
    },
    _ => {
      // the shipped program
      let _ = std::fs::remove_file("parser2.html");
      if s.chance(1, 2) { std::fs::write("parser2.html", vec![b'x'; 200_000]).map_err(|e| format!("HARNESS:{}", e))?; }
      let k = s.below(1 << 30);
      let exe = std::env::current_exe().unwrap().with_file_name("shipped");
      let o = std::process::Command::new(&exe).output().map_err(|e| format!("HARNESS:cannot run {:?}: {}", exe, e))?;
      c.case(format!("shipped program, run {}", k));
      c.label("shipped program");
      if !o.status.success() { return Err(format!("the shipped program fails: {}", String::from_utf8_lossy(&o.stderr))); }
      let page = std::fs::read("parser2.html").map_err(|_| "the shipped program wrote no page".to_string())?;
      let page = String::from_utf8(page).map_err(|_| "page is not UTF-8".to_string())?;
      let exp = ref_parse(include_str!("../../fixtures/builtin.txt")).ok_or("HARNESS:builtin text")?;
      super::draw::check_page(&page, &exp, "parser")?;
      c.nontrivial = true;
    },
  }
  Ok(())
}

// ------------------------------------------------------------------ C24

fn texts(v: Vec<&syntaxis::runtime::ast::terminal_context::TerminalContext>) -> Vec<String> { v.into_iter().map(|t| t.symbol.text.clone()).collect() }
fn text(v: Option<&syntaxis::runtime::ast::terminal_context::TerminalContext>) -> Vec<String> { v.into_iter().map(|t| t.symbol.text.clone()).collect() }
fn exp_t(n: &RuleContext, name: &str) -> Vec<String> { n.children.iter().filter_map(|c| match c { ASTContext::Terminal(t) if t.symbol.token_name == name => Some(t.symbol.text.clone()), _ => None }).collect() }
fn exp_r<'a>(n: &'a RuleContext, idx: usize) -> Vec<&'a RuleContext> { n.children.iter().filter_map(|c| match c { ASTContext::Rule(r) if r.rule_index == idx => Some(r), _ => None }).collect() }
fn same_t(what: &str, got: Vec<String>, exp: Vec<String>) -> Result<(), String> { if got == exp { Ok(()) } else { Err(format!("{} gives {:?}, the construct has {:?}", what, got, exp)) } }
fn same_r(what: &str, got: Vec<&RuleContext>, exp: Vec<&RuleContext>) -> Result<(), String> {
  if got.len() != exp.len() { return Err(format!("{} gives {} nodes, the construct has {}", what, got.len(), exp.len())); }
  for (a, b) in got.iter().zip(exp.iter()) { trees::diff(a, b, true).map_err(|e| format!("{}: {}", what, e))? }
  Ok(())
}

pub fn c24(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let g = text_gram(s, true, true);
  let layout = [Layout::Normal, Layout::Tight, Layout::Wild][s.usize_below(3)];
  let (txt, exp) = write_text(&g, s, layout, true);
  c.case(format!("{:?}", txt));
  let all = imp("v1 lexer", || V1Lexer::new(&txt).scan_all_on_channel_tokens(0))?;
  let (b, tb) = bundled()?;
  cap_reset();
  let mut p = V1Parser::new(all.clone(), tb, b.grammar.vocabulary);
  let whole = imp("parse", || p.parse())?;
  trees::diff(&whole, &exp, true).map_err(|e| format!("whole text: {}", e))?;
  let mut nodes = vec![];
  trees::rules(&exp, &mut nodes);
  let at: HashMap<usize, usize> = all.iter().enumerate().map(|(i, t)| (t.char_start_index, i)).collect();
  let mut picks: Vec<usize> = (0..nodes.len()).collect();
  s.shuffle(&mut picks);
  // at least one of each kind present, then random ones
  let mut kinds = BTreeSet::new();
  let chosen: Vec<usize> = picks.iter().copied().filter(|i| kinds.insert(nodes[*i].rule_index)).chain(picks.iter().copied().take(12)).collect();
  for i in chosen {
    let n = nodes[i];
    let mut lv = vec![]; trees::leaves(n, &mut lv);
    let from = match lv.first() { Some((t, _)) => *at.get(&t.char_start_index).ok_or("a token of the text is missing from the lexer's output")?, None => if n.rule_index == 0 { all.len() - 1 } else { continue } };
    p.tokens = all[from..].to_vec();
    c.evals += 1;
    c.label(&format!("entry point {}", n.rule_name));
    cap_reset();
    macro_rules! ck { ($ctx:expr) => { trees::diff($ctx.as_rule(), n, true).map_err(|e| format!("entry point {}: {}", n.rule_name, e))? } }
    match n.rule_index {
      0 => { let x = imp("rule_list", || p.rule_list())?; ck!(x);
        same_r("parser_rule_list", x.parser_rule_list().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 1))?;
        same_r("lexer_rule_list", x.lexer_rule_list().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 7))?; },
      1 => { let x = imp("parser_rule", || p.parser_rule())?; ck!(x);
        same_t("rule_ref", text(x.rule_ref()), exp_t(n, "RULE_REF"))?; same_t("colon", text(x.colon()), exp_t(n, "COLON"))?; same_t("semi", text(x.semi()), exp_t(n, "SEMI"))?;
        same_r("block", x.block().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 2))?; },
      2 => { let x = imp("block", || p.block())?; ck!(x);
        same_r("alternative_list", x.alternative_list().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 3))?; same_t("or_list", texts(x.or_list()), exp_t(n, "OR"))?; },
      3 => { let x = imp("alternative", || p.alternative())?; ck!(x);
        same_r("element_list", x.element_list().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 5))?; same_r("epsilon", x.epsilon().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 4))?; },
      4 => { let x = imp("epsilon", || p.epsilon())?; ck!(x); same_t("epsilon", text(x.epsilon()), exp_t(n, "EPSILON"))?; },
      5 => { let x = imp("element", || p.element())?; ck!(x);
        same_t("token_ref", text(x.token_ref()), exp_t(n, "TOKEN_REF"))?; same_t("rule_ref", text(x.rule_ref()), exp_t(n, "RULE_REF"))?; same_t("string_literal", text(x.string_literal()), exp_t(n, "STRING_LITERAL"))?;
        same_t("lparen", text(x.lparen()), exp_t(n, "LPAREN"))?; same_t("rparen", text(x.rparen()), exp_t(n, "RPAREN"))?;
        same_r("block", x.block().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 2))?; same_r("ebnf_suffix", x.ebnf_suffix().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 6))?; },
      6 => { let x = imp("ebnf_suffix", || p.ebnf_suffix())?; ck!(x);
        same_t("star", text(x.star()), exp_t(n, "STAR"))?; same_t("plus", text(x.plus()), exp_t(n, "PLUS"))?; same_t("question_list", texts(x.question_list()), exp_t(n, "QUESTION"))?; },
      7 => { let x = imp("lexer_rule", || p.lexer_rule())?; ck!(x);
        same_t("token_ref", text(x.token_ref()), exp_t(n, "TOKEN_REF"))?; same_t("colon", text(x.colon()), exp_t(n, "COLON"))?; same_t("semi", text(x.semi()), exp_t(n, "SEMI"))?;
        same_r("regular", x.regular().into_iter().map(|r| r.as_rule()).collect(), exp_r(n, 8))?; },
      _ => { let x = imp("regular", || p.regular())?; ck!(x); same_t("regular_literal", text(x.regular_literal()), exp_t(n, "REGULAR_LITERAL"))?; },
    }
    let out = cap_take();
    if !out.trim().is_empty() { return Err(format!("entry point {} complains {:?}", n.rule_name, out)); }
  }
  c.nontrivial = nodes.len() >= 5;
  Ok(())
}
