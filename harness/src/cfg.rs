//! Reference context-free-grammar analysis, written relationally (closure of "begins with" / "is followed by" graphs)
//! rather than as the set-equation fixpoint the code under test uses, plus Earley recognition and a predictive parser.

use crate::engine::Source;
use crate::ebnf::{concat, Lang};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym { T(usize), N(usize) }

#[derive(Clone, Debug)]
pub struct Cfg { pub nts: BTreeSet<usize>, pub prods: Vec<(usize, Vec<Sym>)> }

pub type Set = BTreeSet<usize>;

impl Cfg {
  pub fn show(&self) -> String {
    let mut o = String::new();
    for (l, r) in &self.prods {
      o.push_str(&format!("N{} ->", l));
      for s in r { match s { Sym::T(t) => o.push_str(&format!(" t{}", t)), Sym::N(n) => o.push_str(&format!(" N{}", n)) } }
      o.push_str("; ");
    }
    o
  }

  /// worklist with counters (not round-robin iteration)
  pub fn nullable(&self) -> Set {
    let mut null = Set::new();
    let mut cnt: Vec<usize> = Vec::new();
    let mut occ: HashMap<usize, Vec<usize>> = HashMap::new();
    let mut q = VecDeque::new();
    for (i, (l, r)) in self.prods.iter().enumerate() {
      if r.iter().any(|s| matches!(s, Sym::T(_))) { cnt.push(usize::MAX); continue; }
      cnt.push(r.len());
      for s in r { if let Sym::N(n) = s { occ.entry(*n).or_default().push(i) } }
      if r.is_empty() { q.push_back(*l) }
    }
    while let Some(a) = q.pop_front() {
      if !null.insert(a) { continue; }
      for i in occ.get(&a).cloned().unwrap_or_default() {
        cnt[i] -= 1;
        if cnt[i] == 0 { q.push_back(self.prods[i].0) }
      }
    }
    null
  }

  /// symbols that can be at the front after erasing nullable prefixes
  fn heads<'a>(r: &'a [Sym], null: &Set) -> Vec<Sym> {
    let mut v = Vec::new();
    for s in r { v.push(*s); match s { Sym::T(_) => break, Sym::N(n) => if !null.contains(n) { break } } }
    v
  }

  pub fn first(&self) -> (BTreeMap<usize, (bool, Set)>, Vec<(bool, Set)>) {
    let null = self.nullable();
    let mut edges: HashMap<usize, HashSet<Sym>> = HashMap::new();
    for (l, r) in &self.prods { for h in Self::heads(r, &null) { edges.entry(*l).or_default().insert(h); } }
    let reach = |start: Vec<Sym>| -> Set {
      let mut seen = HashSet::new(); let mut out = Set::new(); let mut st = start;
      while let Some(s) = st.pop() {
        match s { Sym::T(t) => { out.insert(t); }, Sym::N(n) => if seen.insert(n) { if let Some(e) = edges.get(&n) { st.extend(e.iter().copied()) } } }
      }
      out
    };
    let mut m = BTreeMap::new();
    for n in &self.nts { m.insert(*n, (null.contains(n), reach(vec![Sym::N(*n)]))); }
    let mut pv = Vec::new();
    for (_, r) in &self.prods {
      let nl = r.iter().all(|s| matches!(s, Sym::N(n) if null.contains(n)));
      pv.push((nl, reach(Self::heads(r, &null))));
    }
    (m, pv)
  }

  /// follow relation by graph reachability; the end marker is terminal 1, the start symbol non-terminal 0
  pub fn follow(&self) -> BTreeMap<usize, Set> {
    let null = self.nullable();
    let (first, _) = self.first();
    let mut base: BTreeMap<usize, Set> = self.nts.iter().map(|n| (*n, Set::new())).collect();
    // up[b] contains a when follow(b) includes follow(a)
    let mut down: HashMap<usize, HashSet<usize>> = HashMap::new();
    if let Some(b) = base.get_mut(&0) { b.insert(1); }
    for (l, r) in &self.prods {
      for i in 0..r.len() {
        if let Sym::N(b) = r[i] {
          let rest = &r[i + 1..];
          let mut all_null = true;
          for s in rest {
            match s {
              Sym::T(t) => { base.get_mut(&b).unwrap().insert(*t); all_null = false; break; },
              Sym::N(n) => { let f = first[n].1.clone(); base.get_mut(&b).unwrap().extend(f); if !null.contains(n) { all_null = false; break; } },
            }
          }
          if all_null { down.entry(*l).or_default().insert(b); }
        }
      }
    }
    let mut out: BTreeMap<usize, Set> = self.nts.iter().map(|n| (*n, Set::new())).collect();
    for a in &self.nts {
      // propagate base[a] to everything reachable from a
      let mut seen = HashSet::new(); let mut st = vec![*a];
      while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        let b = base[a].clone();
        out.get_mut(&x).unwrap().extend(b);
        if let Some(d) = down.get(&x) { st.extend(d.iter().copied()) }
      }
    }
    out
  }

  /// (nonterminal, terminal) -> indices of qualifying productions
  pub fn cells(&self) -> BTreeMap<(usize, usize), Vec<usize>> {
    let (_, pf) = self.first();
    let fo = self.follow();
    let mut m: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    for (i, (l, _)) in self.prods.iter().enumerate() {
      let mut ts: Set = pf[i].1.clone();
      if pf[i].0 { ts.extend(fo[l].iter().copied()) }
      for t in ts { m.entry((*l, t)).or_default().push(i) }
    }
    m
  }
  pub fn ll1_conflicts(&self) -> Vec<(usize, usize)> { self.cells().into_iter().filter(|(_, v)| v.len() > 1).map(|(k, _)| k).collect() }

  pub fn lang(&self, n: usize, cap: usize) -> Option<BTreeMap<usize, Lang>> {
    let mut env: BTreeMap<usize, Lang> = self.nts.iter().map(|x| (*x, Lang::new())).collect();
    crate::ebnf::work_reset();
    loop {
      let mut ch = false;
      for (l, r) in &self.prods {
        let mut cur: Lang = [vec![]].into_iter().collect();
        for s in r {
          let step: Lang = match s { Sym::T(t) => [vec![*t as u16]].into_iter().collect(), Sym::N(x) => env.get(x).cloned().unwrap_or_default() };
          cur = concat(&cur, &step, n);
          if cur.is_empty() { break; }
        }
        let e = env.get_mut(l).unwrap();
        let before = e.len();
        e.extend(cur);
        if e.len() > cap || crate::ebnf::work_exceeded() { return None; }
        if e.len() != before { ch = true }
      }
      if !ch { return Some(env); }
    }
  }

  /// Earley recogniser; true as well when the item budget is used up (nothing is concluded then)
  pub fn recognises(&self, start: usize, w: &[usize]) -> bool {
    let null = self.nullable();
    let mut by: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, (l, _)) in self.prods.iter().enumerate() { by.entry(*l).or_default().push(i) }
    // item: (prod, dot, origin); the virtual goal is origin 0 completion of `start`
    let n = w.len();
    let mut sets: Vec<HashSet<(usize, usize, usize)>> = vec![HashSet::new(); n + 1];
    // items of each set waiting for a non-terminal
    let mut wait: Vec<HashMap<usize, Vec<(usize, usize, usize)>>> = vec![HashMap::new(); n + 1];
    let mut total = 0usize;
    let mut done_start = false;
    for k in 0..=n {
      let mut q: Vec<(usize, usize, usize)> = sets[k].iter().copied().collect();
      if k == 0 { for i in by.get(&start).cloned().unwrap_or_default() { let it = (i, 0, 0); if sets[0].insert(it) { q.push(it) } } }
      while let Some((p, d, o)) = q.pop() {
        total += 1;
        if total > 400_000 { return true; }
        let (l, r) = &self.prods[p];
        if let Some(Sym::N(x)) = r.get(d) { wait[k].entry(*x).or_default().push((p, d, o)) }
        if d == r.len() {
          if k == n && o == 0 && *l == start { done_start = true; }
          let back: Vec<_> = wait[o].get(l).cloned().unwrap_or_default();
          total += back.len();
          for (p2, d2, o2) in back { let it = (p2, d2 + 1, o2); if sets[k].insert(it) { q.push(it) } }
        } else {
          match r[d] {
            Sym::T(t) => if k < n && w[k] == t { sets[k + 1].insert((p, d + 1, o)); },
            Sym::N(x) => {
              for i in by.get(&x).cloned().unwrap_or_default() { let it = (i, 0, k); if sets[k].insert(it) { q.push(it) } }
              if null.contains(&x) { let it = (p, d + 1, o); if sets[k].insert(it) { q.push(it) } }
            },
          }
        }
      }
    }
    done_start
  }

  /// Reference predictive parse from `start`: Ok((tree, consumed)) or Err(position of first error).
  /// Tree nodes: R(nonterminal, children) without flattening.
  pub fn predict(&self, start: usize, w: &[usize]) -> Result<(PTree, usize), usize> {
    let cells = self.cells();
    let mut steps = 0;
    self.pr(&cells, start, w, 0, &mut steps)
  }
  fn pr(&self, cells: &BTreeMap<(usize, usize), Vec<usize>>, a: usize, w: &[usize], pos: usize, steps: &mut usize) -> Result<(PTree, usize), usize> {
    *steps += 1;
    if *steps > 200_000 { panic!("reference predictive parser diverges") }
    if pos >= w.len() { return Err(pos); }
    let p = match cells.get(&(a, w[pos])) { Some(v) if v.len() == 1 => v[0], Some(_) => panic!("predict on a conflicting grammar"), None => return Err(pos) };
    let mut ch = Vec::new();
    let mut c = pos;
    for s in self.prods[p].1.clone() {
      match s {
        Sym::T(t) => { if c < w.len() && w[c] == t { ch.push(PTree::T(c)); c += 1 } else { return Err(c) } },
        Sym::N(n) => { let (x, c2) = self.pr(cells, n, w, c, steps)?; ch.push(x); c = c2 },
      }
    }
    Ok((PTree::R(a, ch), c))
  }

  /// sample a terminal string from a nonterminal
  pub fn sample(&self, s: &mut Source, start: usize, budget: usize) -> Option<Vec<usize>> {
    let mut h: HashMap<usize, usize> = HashMap::new();
    loop {
      let mut ch = false;
      for (l, r) in &self.prods {
        let mut m = 0usize; let mut ok = true;
        for x in r { if let Sym::N(n) = x { match h.get(n) { Some(v) => m = m.max(*v), None => { ok = false; break } } } }
        if ok { let v = m + 1; if h.get(l).map(|o| v < *o).unwrap_or(true) { h.insert(*l, v); ch = true } }
      }
      if !ch { break; }
    }
    h.get(&start)?;
    let mut out = Vec::new();
    let mut b = budget as isize;
    let ph = |r: &Vec<Sym>| -> Option<usize> { let mut m = 0; for x in r { if let Sym::N(n) = x { m = m.max(*h.get(n)?) } } Some(m) };
    let mut by: HashMap<usize, Vec<(usize, usize)>> = HashMap::new();
    for (i, p) in self.prods.iter().enumerate() { if let Some(h) = ph(&p.1) { by.entry(p.0).or_default().push((i, h)) } }
    let mut stack = vec![Sym::N(start)];
    let mut steps = 0;
    while let Some(x) = stack.pop() {
      steps += 1;
      if steps > 20_000 { return None; }
      match x {
        Sym::T(t) => out.push(t),
        Sym::N(n) => {
          b -= 1;
          let c = by.get(&n)?;
          let min = c.iter().map(|x| x.1).min()?;
          let c: Vec<usize> = c.iter().filter(|x| b > 0 || x.1 == min).map(|x| x.0).collect();
          let i = *s.pick(&c);
          for y in self.prods[i].1.iter().rev() { stack.push(*y) }
        },
      }
    }
    Some(out)
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum PTree { T(usize), R(usize, Vec<PTree>) } // T(position in input)

// ------------------------------------------------------------------ random plain grammars

/// Random CFG over non-terminals (ids may have gaps) and terminals from 2 on.
pub fn gen_cfg(s: &mut Source) -> Cfg {
  if s.chance(1, 400) { return chain_cfg(s); }
  if s.chance(1, 400) { return wide_cfg(s); }
  let shape = s.weighted(&[10, 3, 1]);
  let (mn, mt, mp, ml) = match shape { 0 => (5, 4, 9, 4), 1 => (10, 8, 24, 6), _ => (40, 30, 90, 14) };
  let nn = 1 + s.usize_below(mn);
  let nt = 1 + s.usize_below(mt);
  let gap = s.chance(1, 6);
  // sparse numbers, now and then ones that agree in their low bits
  let (mul, add) = if gap && s.chance(1, 3) { (1usize << *s.pick(&[5u32, 6, 8, 16, 32]), 0) } else { (7, 3) };
  let ids: Vec<usize> = (0..nn).map(|i| if gap && i > 0 { i * mul + add } else { i }).collect();
  let toff = if s.chance(1, 8) { *s.pick(&[100, 256, 65536 + 2, (1usize << 32) + 2]) } else { 2 };
  let nprod = s.range(1, mp.max(nn));
  let mut set: BTreeSet<(usize, Vec<Sym>)> = BTreeSet::new();
  // how likely: empty sides, non-terminals
  let pe = 1 + s.below(4);
  let pn = 2 + s.below(8);
  for i in 0..nprod {
    let l = if i < nn && !s.chance(1, 10) { ids[i] } else { *s.pick(&ids) };
    let len = if s.chance(pe, 16) { 0 } else { 1 + s.size(2, ml - 1) };
    let r: Vec<Sym> = (0..len).map(|_| if s.chance(pn, 12) { Sym::N(*s.pick(&ids)) } else { Sym::T(toff + s.usize_below(nt)) }).collect();
    set.insert((l, r));
  }
  // structured injections: nullable chains, unit cycles, left recursion
  if s.chance(1, 4) && nn >= 3 {
    let k = s.range(2, nn);
    match s.usize_below(4) {
      0 => { for i in 0..k - 1 { set.insert((ids[i], vec![Sym::N(ids[i + 1])])); } set.insert((ids[k - 1], vec![])); },
      1 => { for i in 0..k { set.insert((ids[i], vec![Sym::N(ids[(i + 1) % k])])); } },
      2 => { let r: Vec<Sym> = (1..k).map(|i| Sym::N(ids[i])).collect(); set.insert((ids[0], r)); for i in 1..k { set.insert((ids[i], vec![])); } },
      _ => { set.insert((ids[0], vec![Sym::N(ids[0]), Sym::T(toff)])); let mut r: Vec<Sym> = (1..k).map(|i| Sym::N(ids[i])).collect(); r.push(Sym::N(ids[0])); set.insert((ids[1], r)); },
    }
  }
  let mut prods: Vec<_> = set.into_iter().collect();
  s.shuffle(&mut prods);
  Cfg { nts: ids.into_iter().collect(), prods }
}

/// right sides of dozens to hundreds of symbols, most of which can be empty; rules with hundreds of alternatives
fn wide_cfg(s: &mut Source) -> Cfg {
  let k = s.range(3, 12);
  let mut set: BTreeSet<(usize, Vec<Sym>)> = BTreeSet::new();
  for i in 1..k { if s.chance(7, 8) { set.insert((i, vec![])); } if s.chance(3, 4) { set.insert((i, vec![Sym::T(2 + i)])); } if s.chance(1, 4) { set.insert((i, vec![Sym::N(1 + s.usize_below(k - 1)), Sym::N(1 + s.usize_below(k - 1))])); } }
  for _ in 0..s.range(1, 3) {
    let l = if s.chance(1, 2) { 0 } else { s.usize_below(k) };
    let m = match s.usize_below(3) { 0 => s.range(12, 40), 1 => s.range(40, 140), _ => s.range(140, 300) };
    let full = s.chance(1, 3);
    let mut r: Vec<Sym> = (0..m).map(|_| Sym::N(1 + s.usize_below(k - 1))).collect();
    if !full { let at = s.usize_below(r.len()); r[at] = Sym::T(40 + s.usize_below(3)) }
    set.insert((l, r));
  }
  if s.chance(1, 3) { let l = s.usize_below(k); for i in 0..s.range(60, 300) { set.insert((l, vec![Sym::T(50 + i)])); } }
  let mut prods: Vec<_> = set.into_iter().collect();
  s.shuffle(&mut prods);
  Cfg { nts: (0..k).collect(), prods }
}

/// long chains of dependencies, in either direction, ended by a token, the empty string or a cycle
fn chain_cfg(s: &mut Source) -> Cfg {
  let k = s.range(40, 300);
  let mut prods: Vec<(usize, Vec<Sym>)> = vec![];
  let kind = s.usize_below(4);
  for i in 0..k - 1 {
    let r = match kind { 0 => vec![Sym::N(i + 1)], 1 => vec![Sym::T(2 + i % 5), Sym::N(i + 1)], 2 => vec![Sym::N(i + 1), Sym::T(2 + i % 5)], _ => vec![Sym::N(k), Sym::N(i + 1)] };
    prods.push((i, r));
    if s.chance(1, 12) { prods.push((i, vec![])) }
    if s.chance(1, 20) { prods.push((i, vec![Sym::T(20 + i)])) }
  }
  match s.usize_below(3) { 0 => prods.push((k - 1, vec![])), 1 => prods.push((k - 1, vec![Sym::T(9)])), _ => { let j = s.usize_below(k); prods.push((k - 1, vec![Sym::N(j)])) } }
  prods.push((k, vec![])); if s.chance(1, 2) { prods.push((k, vec![Sym::T(10)])) }
  if s.chance(1, 2) { // renumber so that the chain runs against the numbering
    let f = |x: usize| if x == 0 || x == k { x } else { k - x };
    for (l, r) in &mut prods { *l = f(*l); for x in r { if let Sym::N(n) = x { *n = f(*n) } } }
  }
  let set: BTreeSet<(usize, Vec<Sym>)> = prods.into_iter().collect();
  let mut prods: Vec<_> = set.into_iter().collect();
  s.shuffle(&mut prods);
  Cfg { nts: (0..=k).collect(), prods }
}
