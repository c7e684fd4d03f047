//! C08 C09 C10: FIRST, FOLLOW, LL(1) table.
use crate::cfg::*;
use crate::ebnf;
use crate::engine::*;
use crate::pipeline::*;
use std::collections::BTreeSet;
use syntaxis::tool::grammar::Production;

fn gen(s: &mut Source, c: &mut Ctx) -> Cfg {
  let cf = match s.weighted(&[6, 2, 2]) {
    0 => { c.label("random plain grammar"); gen_cfg(s) },
    1 => { c.label("from EBNF"); let o = super::gram::opts(s, true, false); let g = ebnf::gen_gram(s, &o); ebnf::desugar(&g).cfg },
    _ => { c.label("LL(1) grammar"); let g = ebnf::gen_ll1(s); ebnf::desugar(&g).cfg },
  };
  // Some non-terminals have no production; occasionally there is no start rule at all.
  let mut cf = cf;
  if s.chance(1, 40) { c.label("no rule 0"); cf.nts.remove(&0); cf.prods.retain(|(l, r)| *l != 0 && !r.contains(&Sym::N(0))); }
  let null = cf.nullable();
  c.label_if(!null.is_empty(), "nullable symbols");
  c.label_if(cf.prods.iter().any(|(l, r)| r.first() == Some(&Sym::N(*l))), "direct left recursion");
  c.label_if(cf.prods.iter().any(|(_, r)| r.iter().take_while(|x| matches!(x, Sym::N(n) if null.contains(n))).count() >= 2), "nullable prefix of 2+");
  c.label_if(cf.nts.iter().any(|n| !cf.prods.iter().any(|p| p.0 == *n)), "rule without production");
  c.label_if(cf.nts.len() >= 15, "15+ non-terminals");
  c.case(cf.show());
  c.nontrivial = cf.nts.len() >= 2 && cf.prods.len() >= 3;
  cf
}
const REPEATS: usize = 3;
fn set(s: &std::collections::HashSet<usize>) -> Set { s.iter().copied().collect() }

pub fn c08(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let cf = gen(s, c);
  let (fm, pm) = cf.first();
  for _ in 0..REPEATS {
    c.evals += 1;
    let g = grammar_of(&cf);
    let (f, pf) = imp("first_set", || g.first_set())?;
    if f.len() != fm.len() { return Err(format!("first sets for {} symbols, there are {}", f.len(), fm.len())); }
    for (n, (nl, st)) in &fm {
      let x = f.get(n).ok_or_else(|| format!("no first set for N{}", n))?;
      if x.allow_epsilon != *nl { return Err(format!("N{} {} derive the empty string, computed allow_epsilon={}", n, if *nl { "can" } else { "cannot" }, x.allow_epsilon)); }
      if set(&x.set) != *st { return Err(format!("FIRST(N{}) = {:?}, computed {:?}", n, st, set(&x.set))); }
    }
    if pf.len() != cf.prods.len() { return Err(format!("first sets for {} productions, there are {}", pf.len(), cf.prods.len())); }
    for ((l, r), (nl, st)) in cf.prods.iter().zip(pm.iter()) {
      let p = Production::new(*l, &r.iter().map(item).collect());
      let x = pf.get(&p).ok_or_else(|| format!("no first set for {:?}", p))?;
      if x.allow_epsilon != *nl { return Err(format!("right side of {:?}: nullable is {}, computed {}", p, nl, x.allow_epsilon)); }
      if set(&x.set) != *st { return Err(format!("FIRST of the right side of {:?} = {:?}, computed {:?}", p, st, set(&x.set))); }
    }
  }
  Ok(())
}

pub fn c09(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let cf = gen(s, c);
  let fo = cf.follow();
  for _ in 0..REPEATS {
    c.evals += 1;
    let g = grammar_of(&cf);
    let f = imp("first_set", || g.first_set())?.0;
    let x = imp("follow_set", || g.follow_set(&f))?;
    if x.len() != fo.len() { return Err(format!("follow sets for {} symbols, there are {}", x.len(), fo.len())); }
    for (n, st) in &fo {
      let y = x.get(n).ok_or_else(|| format!("no follow set for N{}", n))?;
      if set(y) != *st { return Err(format!("FOLLOW(N{}) = {:?}, computed {:?}", n, st, set(y))); }
    }
  }
  Ok(())
}

pub fn c10(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let cf = gen(s, c);
  let cells = cf.cells();
  let conf: Vec<_> = cells.iter().filter(|(_, v)| v.len() > 1).collect();
  c.label(if conf.is_empty() { "conflict-free" } else { "conflicts" });
  c.label_if(conf.len() == 1, "exactly one conflicting cell");
  let prods: Vec<Production> = cf.prods.iter().map(|(l, r)| Production::new(*l, &r.iter().map(item).collect())).collect();
  for _ in 0..REPEATS {
    c.evals += 1;
    let g = grammar_of(&cf);
    let (f, pf) = imp("first_set", || g.first_set())?;
    let fo = imp("follow_set", || g.follow_set(&f))?;
    cap_reset();
    let t = imp("ll1_table", || g.ll1_table(&pf, &fo))?;
    let out = cap_take();
    for ((n, a), v) in &cells {
      match t.get(&(*n, *a)) {
        None => return Err(format!("cell (N{}, t{}) is empty, {:?} belongs there", n, a, prods[v[0]])),
        Some(p) => if !v.iter().any(|i| prods[*i] == **p) { return Err(format!("cell (N{}, t{}) holds {:?}, which does not qualify", n, a, p)) },
      }
    }
    let keys: BTreeSet<(usize, usize)> = t.keys().copied().collect();
    for k in keys { if !cells.contains_key(&k) { return Err(format!("cell (N{}, t{}) holds {:?} but nothing qualifies", k.0, k.1, t[&k])); } }
    if conf.is_empty() { if !out.trim().is_empty() { return Err(format!("no cell is contested but printed {:?}", out)); } }
    else {
      if out.trim().is_empty() { let (k, v) = conf[0]; return Err(format!("cell (N{}, t{}) is contested by {:?} and {:?}, nothing is printed", k.0, k.1, prods[v[0]], prods[v[1]])); }
      if out.contains("Production {") {
        let stride = 1 + conf.len() * out.len() / 20_000_000;
        for (k, v) in conf.iter().step_by(stride) { if !v.iter().any(|i| out.contains(&format!("{:?}", prods[*i]))) { return Err(format!("the conflict in cell (N{}, t{}) is not among the printed ones: {:?}", k.0, k.1, out)); } }
      }
    }
  }
  Ok(())
}
