//! C05 C06 C07: numbering, EBNF rewriting, closure and listing.
use crate::cfg::{Cfg, Sym};
use crate::ebnf::*;
use crate::engine::*;
use crate::pipeline::*;
use std::collections::{BTreeMap, BTreeSet};
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::SymbolVisitor;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor};
use syntaxis::tool::grammar::Grammar;

pub fn opts(s: &mut Source, plus: bool, dup: bool) -> GenOpts {
  match s.weighted(&[360, 120, 30, 1]) {
    3 => GenOpts { plus, lits: false, dup, max_rules: 330, max_toks: 400, depth: 1, max_alts: 2, max_seq: 3, suffix: true },
    0 => GenOpts { plus, lits: false, dup, max_rules: 5, max_toks: 6, depth: 2, max_alts: 4, max_seq: 4, suffix: true },
    1 => GenOpts { plus, lits: false, dup, max_rules: 12, max_toks: 14, depth: 4, max_alts: 8, max_seq: 8, suffix: true },
    _ => GenOpts { plus, lits: false, dup, max_rules: 40, max_toks: 60, depth: 3, max_alts: 20, max_seq: 24, suffix: true },
  }
}
pub fn labels(g: &Gram, c: &mut Ctx) {
  for (k, v) in stats(g) { if v > 0 { c.label(&format!("has {}", k)) } }
  c.label_if(g.rule_names().len() >= 8, "8+ rules");
  c.label_if(g.rule_names().len() >= 100 || g.token_names().len() >= 100, "100+ rules or tokens");
}
fn data_ok(d: &[LexerRuleData], g: &Gram, first: usize, what: &str) -> Result<(), String> {
  let names = g.token_names();
  if d.len() != names.len() { return Err(format!("{} has {} entries for {} tokens", what, d.len(), names.len())); }
  for (i, n) in names.iter().enumerate() {
    if d[i].token_name != *n || d[i].token_type != i + first { return Err(format!("{} entry {} is {}#{}, expected {}#{}", what, i, d[i].token_name, d[i].token_type, n, i + first)); }
  }
  Ok(())
}

pub fn c05(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let mut o = opts(s, true, true);
  o.depth = 1; o.max_alts = o.max_alts.min(3); o.max_seq = o.max_seq.min(3);
  if s.chance(1, 10) { o.max_rules = 120; o.max_toks = 120; }
  let mut g = gen_gram(s, &o);
  // grammars of tokens only / rules only
  match s.weighted(&[12, 1, 1]) { 1 => g.defs.retain(|d| matches!(d, Def::Token(..))), 2 => { let none: Vec<String> = vec![]; let _ = none; }, _ => {} }
  // an earlier definition may be repeated anywhere
  let ndup = g.defs.len() - g.rule_names().len() - g.token_names().len();
  c.case(g.show());
  labels(&g, c);
  c.label_if(ndup > 0, "duplicate definitions");
  let tree = tree_old(&g);
  let b = build(&tree)?;
  let v = &b.grammar.vocabulary;
  let (tn, rn) = (g.token_names(), g.rule_names());
  for (i, n) in tn.iter().enumerate() {
    if v.get_terminal_id_by_name(n) != Some(i + 2) { return Err(format!("token {} (definition {}) has type {:?}", n, i, v.get_terminal_id_by_name(n))); }
    if v.get_terminal_name_by_id(i + 2).as_deref() != Some(n.as_str()) { return Err(format!("type {} is named {:?}, expected {}", i + 2, v.get_terminal_name_by_id(i + 2), n)); }
    if !v.is_terminal_id(i + 2) || !v.is_terminal_name_defined(n) { return Err(format!("token {} is not registered", n)); }
  }
  for (i, n) in rn.iter().enumerate() {
    if v.get_nonterminal_id_by_name(n) != Some(i) { return Err(format!("rule {} (definition {}) has id {:?}", n, i, v.get_nonterminal_id_by_name(n))); }
    if v.get_nonterminal_name_by_id(i).as_deref() != Some(n.as_str()) { return Err(format!("rule id {} is named {:?}, expected {}", i, v.get_nonterminal_name_by_id(i), n)); }
    if !v.is_nonterminal_id(i) || !v.is_nonterminal_name_defined(n) { return Err(format!("rule {} is not registered", n)); }
  }
  let terms: BTreeSet<usize> = v.get_all_terminals().iter().copied().collect();
  if terms != (0..tn.len() + 2).collect() { return Err(format!("terminals are {:?}", terms)); }
  let named: BTreeSet<usize> = v.get_all_nonterminals().iter().copied().filter(|i| v.get_nonterminal_name_by_id(*i).is_some()).collect();
  if named != (0..rn.len()).collect() { return Err(format!("named rules have ids {:?}", named)); }
  if b.tokens_end != tn.len() + 2 || b.rules_end != rn.len() { return Err(format!("numbering continues at {} / {}, expected {} / {}", b.tokens_end, b.rules_end, tn.len() + 2, rn.len())); }
  data_ok(&b.data, &g, 2, "lexer data")?;
  // reports
  let mut seen = BTreeSet::new();
  for d in &g.defs {
    let n = match d { Def::Rule(n, _) => n, Def::Token(n, _) => n };
    if !seen.insert(n.clone()) && !b.printed_symbols.contains(n.as_str()) { return Err(format!("re-definition of {} is not reported (printed {:?})", n, b.printed_symbols)); }
  }
  if ndup == 0 && !b.printed_symbols.trim().is_empty() { return Err(format!("nothing is defined twice, but printed {:?}", b.printed_symbols)); }
  if ndup > 0 && b.printed_symbols.lines().filter(|l| !l.trim().is_empty()).count() < ndup { return Err(format!("{} re-definitions, printed {:?}", ndup, b.printed_symbols)); }
  // the first pattern stays: compare with the grammar stripped of re-definitions
  let mut seen = BTreeSet::new();
  let h = Gram { defs: g.defs.iter().filter(|d| seen.insert(match d { Def::Rule(n, _) => n.clone(), Def::Token(n, _) => n.clone() })).cloned().collect() };
  let hb = build(&tree_old(&h))?;
  for (x, y) in b.data.iter().zip(hb.data.iter()) { if x.regex != y.regex { return Err(format!("pattern of {} is {:?}, first definition gives {:?}", x.token_name, x.regex, y.regex)); } }
  // the stand-alone collector, possibly continuing after earlier entries
  let off = s.usize_below(4);
  let pre: Vec<LexerRuleData> = (0..off).map(|i| LexerRuleData { token_type: i + 2, token_name: format!("Earlier{}", i + 2), regex: "^(x)".into() }).collect();
  cap_reset();
  let lv = imp("LexerRuleVisitor", || { let mut lv = LexerRuleVisitor::new(pre, off + 2); RuleListContext::accept(&tree, &mut lv); lv })?;
  let printed = cap_take();
  if lv.next_token_type != off + 2 + tn.len() { return Err(format!("collector continues at {}", lv.next_token_type)); }
  if lv.data.len() < off { return Err("collector lost earlier entries".into()); }
  data_ok(&lv.data[off..], &g, off + 2, "collector")?;
  let mut seen = BTreeSet::new();
  for d in &g.defs { if let Def::Token(n, _) = d { if !seen.insert(n.clone()) && !printed.contains(n.as_str()) { return Err(format!("collector does not report the re-definition of {}", n)); } } }
  let htree = tree_old(&h);
  let hl = imp("LexerRuleVisitor", || { let mut lv = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&htree, &mut lv); lv.data })?;
  for (x, y) in lv.data[off..].iter().zip(hl.iter()) { if x.regex != y.regex { return Err(format!("collector pattern of {} is {:?}, first definition gives {:?}", x.token_name, x.regex, y.regex)); } }
  // symbols numbered after earlier tokens keep earlier entries
  let sv = imp("SymbolVisitor", || {
    let mut gr = Grammar::new("x");
    let pre: Vec<LexerRuleData> = (0..off).map(|i| { gr.vocabulary.add_terminal(i + 2, &format!("'t{}'", i)); LexerRuleData { token_type: i + 2, token_name: format!("_T_{}", i + 2), regex: "^(x)".into() } }).collect();
    let mut sv = SymbolVisitor::new(&mut gr, off + 2, 0, pre);
    RuleListContext::accept(&tree, &mut sv);
    (sv.data, sv.next_token_id)
  })?;
  if sv.0.len() < off { return Err("symbol pass lost earlier entries".into()); }
  data_ok(&sv.0[off..], &g, off + 2, "symbol pass after literals")?;
  c.nontrivial = g.defs.len() >= 3;
  Ok(())
}

fn fmt_w(w: &[u16], g: &Gram) -> String { let n = g.token_names(); let v: Vec<String> = w.iter().map(|t| n.get(*t as usize - 2).cloned().unwrap_or(format!("#{}", t))).collect(); if v.is_empty() { "the empty string".into() } else { v.join(" ") } }

/// A grammar in which tokens, rules and groups recur in combinations that stress sharing of anonymous symbols.
fn sharing_gram(s: &mut Source) -> Gram {
  let nr = 1 + s.usize_below(5);
  let nt = 1 + s.usize_below(5);
  let rn: Vec<String> = (0..nr).map(|i| format!("rr{}", i)).collect();
  let tn: Vec<String> = (0..nt).map(|i| format!("TK{}", i)).collect();
  let o = GenOpts { plus: true, lits: false, dup: false, max_rules: 2, max_toks: 2, depth: 2, max_alts: 3, max_seq: 2, suffix: true };
  let pool: Vec<Elem> = { let n = 2 + s.usize_below(4); (0..n).map(|_| gen_elem(s, &o, &rn, &tn, 2)).collect() };
  let mut defs = vec![];
  for r in &rn {
    let na = 1 + s.usize_below(3);
    let b = (0..na).map(|_| {
      let n = s.size(2, 5);
      if n == 0 { return Alt::Eps; }
      Alt::Seq((0..n).map(|_| {
        let mut e = s.pick(&pool).clone();
        match s.usize_below(5) { 0 => { e.suf = Suf::Star }, 1 => e.suf = Suf::Opt, 2 => e.suf = Suf::Plus, 3 => { e = Elem { atom: Atom::Group(vec![Alt::Seq(vec![e])]), suf: Suf::None, lazy: false } }, _ => {} }
        if e.suf == Suf::None { e.lazy = false }
        e
      }).collect())
    }).collect();
    defs.push(Def::Rule(r.clone(), b));
  }
  for (i, t) in tn.iter().enumerate() { defs.push(Def::Token(t.clone(), simple_pat(i))) }
  if s.chance(1, 2) { s.shuffle(&mut defs) }
  Gram { defs }
}

pub fn c06(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let g = if s.chance(2, 5) { sharing_gram(s) } else { let o = opts(s, true, false); gen_gram(s, &o) };
  c.case(g.show());
  labels(&g, c);
  let b = build(&tree_old(&g))?;
  let ic = cfg_of(&b.grammar);
  let d = desugar(&g);
  let nr = g.rule_names().len();
  for i in 0..nr { if !ic.nts.contains(&i) { return Err(format!("rule {} is missing", g.rule_names()[i])); } }
  for (l, r) in &ic.prods { if !ic.nts.contains(l) || r.iter().any(|x| matches!(x, Sym::N(n) if !ic.nts.contains(n))) { return Err(format!("a production of {} uses an unregistered symbol", l)); } }
  // exhaustive comparison of short words
  let mut n = 5;
  let mut done = 0;
  while n >= 1 {
    let cap = if n >= 4 { 400 } else { 2000 };
    if let (Some(a), Some(bm)) = (ebnf_lang(&g, n, cap), ic.lang(n, cap)) {
      for i in 0..nr {
        if a[i] != bm[&i] {
          if let Some(w) = a[i].difference(&bm[&i]).next() { return Err(format!("rule {}: {} is denoted by the grammar but not generated by the productions", g.rule_names()[i], fmt_w(w, &g))); }
          if let Some(w) = bm[&i].difference(&a[i]).next() { return Err(format!("rule {}: {} is generated by the productions but not denoted by the grammar", g.rule_names()[i], fmt_w(w, &g))); }
        }
      }
      done = n;
      c.evals += a.iter().map(|l| l.len() as u64).sum::<u64>();
      break;
    }
    n -= 1;
  }
  c.label(&format!("all words up to length {}", done));
  // longer words, both directions
  let h = heights(&g);
  for _ in 0..4 {
    let r = s.usize_below(nr);
    if h.rule[r] >= INF { continue; }
    let bud = if s.chance(1, 6) { 60 } else { 16 };
    let node = { let mut sm = Sampler::new(&g, bud, 5); sm.rule(s, r) };
    let mut w = vec![]; frontier(&node, &mut w);
    if w.len() <= 60 && !ic.recognises(r, &w) { return Err(format!("rule {}: {} is denoted by the grammar but not generated by the productions", g.rule_names()[r], fmt_w(&w.iter().map(|x| *x as u16).collect::<Vec<_>>(), &g))); }
    if let Some(w) = ic.sample(s, r, 14) {
      if w.len() <= 60 && !d.cfg.recognises(r, &w) { return Err(format!("rule {}: {} is generated by the productions but not denoted by the grammar", g.rule_names()[r], fmt_w(&w.iter().map(|x| *x as u16).collect::<Vec<_>>(), &g))); }
    }
    c.evals += 2;
  }
  let st = stats(&g);
  c.nontrivial = st.keys().any(|k| *k != "eps") && done >= 1;
  Ok(())
}

/// read a printed grammar back
pub fn read_listing(text: &str, resolve_n: impl Fn(&str) -> Option<usize>, resolve_t: impl Fn(&str) -> Option<usize>) -> Result<Vec<(usize, Vec<Sym>)>, String> {
  let mut out = vec![];
  for line in text.lines() {
    if line.trim().is_empty() { continue; }
    let body = line.trim_end().strip_suffix(';').ok_or_else(|| format!("line {:?} does not end in ';'", line))?;
    let w: Vec<&str> = body.split_whitespace().collect();
    if w.len() < 2 || w[1] != "->" { return Err(format!("line {:?} has no arrow after its left side", line)); }
    let l = resolve_n(w[0]).ok_or_else(|| format!("left side {:?} in {:?} is no rule", w[0], line))?;
    let mut r = vec![];
    for x in &w[2..] {
      match (resolve_n(x), resolve_t(x)) { (Some(n), None) => r.push(Sym::N(n)), (None, Some(t)) => r.push(Sym::T(t)), (None, None) => return Err(format!("{:?} in {:?} is no symbol", x, line)), _ => return Err(format!("{:?} is ambiguous", x)) }
    }
    out.push((l, r));
  }
  Ok(out)
}

pub fn c07(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let plain = s.chance(1, 4);
  if plain {
    // a grammar assembled through the API
    let cf = crate::cfg::gen_cfg(s);
    c.case(cf.show());
    let g = grammar_of(&cf);
    listing(&g, &cf, c)?;
    c.nontrivial = cf.prods.len() >= 3;
    return Ok(());
  }
  let g = if s.chance(1, 4) { sharing_gram(s) } else { let o = opts(s, true, false); gen_gram(s, &o) };
  c.case(g.show());
  labels(&g, c);
  let b = build(&tree_old(&g))?;
  let v = &b.grammar.vocabulary;
  let ic = cfg_of(&b.grammar);
  for (l, r) in &ic.prods {
    if !v.is_nonterminal_id(*l) { return Err(format!("left side {} is not registered", l)); }
    for x in r { match x {
      Sym::T(t) => if !v.is_terminal_id(*t) || v.get_terminal_name_by_id(*t).is_none() { return Err(format!("terminal {} is not registered", t)) },
      Sym::N(n) => if !v.is_nonterminal_id(*n) { return Err(format!("non-terminal {} is not registered", n)) },
    } }
  }
  let rn = g.rule_names();
  let (rid, tid) = (g.rule_id(), g.token_id());
  for n in v.get_all_nonterminals() {
    match v.get_nonterminal_name_by_id(*n) { Some(name) => if rid.get(&name) != Some(n) { return Err(format!("symbol {} is called {}", n, name)) }, None => if *n < rn.len() { return Err(format!("anonymous symbol {} collides with rule {}", n, rn[*n])) } }
  }
  // every named rule has exactly its own alternatives
  for (i, name) in rn.iter().enumerate() {
    let rights: Vec<&Vec<Sym>> = ic.prods.iter().filter(|p| p.0 == i).map(|p| &p.1).collect();
    let alts = g.alts(name);
    // Some(pattern): exact symbol or "some anonymous symbol"
    let pats: Vec<Option<Vec<Option<Sym>>>> = alts.iter().map(|a| match a {
      Alt::Eps => Some(vec![]),
      Alt::Seq(v) => v.iter().map(|e| match (&e.atom, &e.suf) {
        (Atom::Tok(t), Suf::None) => Some(Some(Sym::T(tid[t]))),
        (Atom::Rule(r), Suf::None) => Some(Some(Sym::N(rid[r]))),
        (Atom::Group(_), Suf::None) => None,
        _ => Some(None),
      }).collect(),
    }).collect();
    let fits = |r: &Vec<Sym>, p: &Vec<Option<Sym>>| r.len() == p.len() && r.iter().zip(p).all(|(x, y)| match y { Some(z) => x == z, None => matches!(x, Sym::N(n) if *n >= rn.len()) });
    for (p, a) in pats.iter().zip(alts.iter()) { if let Some(p) = p { if !rights.iter().any(|r| fits(r, p)) { return Err(format!("alternative `{}` of {} has no production", show_alt(a), name)); } } }
    if pats.iter().all(|p| p.is_some()) { for r in &rights { if !pats.iter().any(|p| fits(r, p.as_ref().unwrap())) { return Err(format!("{} has the production {:?}, which is none of its alternatives", name, r)); } } }
    if rights.len() > alts.len() { return Err(format!("{} has {} productions for {} alternatives", name, rights.len(), alts.len())); }
  }
  listing(&b.grammar, &ic, c)?;
  c.nontrivial = stats(&g).len() >= 1;
  Ok(())
}

fn listing(g: &Grammar, cf: &Cfg, c: &mut Ctx) -> Result<(), String> {
  let text = imp("printing the grammar", || format!("{}", g))?;
  let v = &g.vocabulary;
  let nm: BTreeMap<String, usize> = v.get_all_nonterminals().iter().map(|n| (v.get_nonterminal_name_with_default(*n), *n)).collect();
  let tm: BTreeMap<String, usize> = v.get_all_terminals().iter().map(|t| (v.get_terminal_name_by_id(*t).unwrap_or_default(), *t)).collect();
  let got = read_listing(&text, |x| nm.get(x).copied(), |x| tm.get(x).copied()).map_err(|e| format!("{} in the listing\n{}", e, text))?;
  let exp: BTreeSet<(usize, Vec<Sym>)> = cf.prods.iter().cloned().collect();
  let gs: BTreeSet<(usize, Vec<Sym>)> = got.iter().cloned().collect();
  if got.len() != exp.len() { return Err(format!("listing has {} productions, the grammar {}", got.len(), exp.len())); }
  if gs != exp { return Err(format!("listing does not read back to the productions: {}", text)); }
  c.evals += got.len() as u64;
  Ok(())
}
