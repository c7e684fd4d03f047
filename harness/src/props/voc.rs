//! C21: the vocabulary against a relational model, over operation histories.
use crate::engine::*;
use std::collections::BTreeMap;
use syntaxis::runtime::vocabulary::Vocabulary;

#[derive(Default)]
struct Model { t: BTreeMap<usize, String>, n: BTreeMap<usize, Option<String>> }

fn observe(v: &Vocabulary, m: &Model, ids: &[usize], names: &[String]) -> Result<(), String> {
  let mut ts: Vec<usize> = v.get_all_terminals().iter().copied().collect(); ts.sort();
  let mut ns: Vec<usize> = v.get_all_nonterminals().iter().copied().collect(); ns.sort();
  if ts != m.t.keys().copied().collect::<Vec<_>>() { return Err(format!("all terminals are {:?}, added were {:?}", ts, m.t.keys())); }
  if ns != m.n.keys().copied().collect::<Vec<_>>() { return Err(format!("all non-terminals are {:?}, added were {:?}", ns, m.n.keys())); }
  for i in ids {
    if v.is_terminal_id(*i) != m.t.contains_key(i) { return Err(format!("is_terminal_id({}) = {}", i, v.is_terminal_id(*i))); }
    if v.is_nonterminal_id(*i) != m.n.contains_key(i) { return Err(format!("is_nonterminal_id({}) = {}", i, v.is_nonterminal_id(*i))); }
    if v.get_terminal_name_by_id(*i) != m.t.get(i).cloned() { return Err(format!("terminal {} is named {:?}, expected {:?}", i, v.get_terminal_name_by_id(*i), m.t.get(i))); }
    if let Some(n) = m.t.get(i) { let g = imp("get_terminal_name", || v.get_terminal_name(*i))?; if g != *n { return Err(format!("get_terminal_name({}) = {:?}, expected {:?}", i, g, n)); } }
    let en = m.n.get(i).cloned().flatten();
    if v.get_nonterminal_name_by_id(*i) != en { return Err(format!("non-terminal {} is named {:?}, expected {:?}", i, v.get_nonterminal_name_by_id(*i), en)); }
    let d = v.get_nonterminal_name_with_default(*i);
    if d != en.clone().unwrap_or(i.to_string()) { return Err(format!("non-terminal {} prints as {:?}, expected {:?}", i, d, en)); }
  }
  for n in names {
    let et = m.t.iter().find(|(_, x)| *x == n).map(|(i, _)| *i);
    let en = m.n.iter().find(|(_, x)| x.as_ref() == Some(n)).map(|(i, _)| *i);
    if v.get_terminal_id_by_name(n) != et || v.is_terminal_name_defined(n) != et.is_some() { return Err(format!("terminal {:?} has id {:?} (defined: {}), expected {:?}", n, v.get_terminal_id_by_name(n), v.is_terminal_name_defined(n), et)); }
    if v.get_nonterminal_id_by_name(n) != en || v.is_nonterminal_name_defined(n) != en.is_some() { return Err(format!("non-terminal {:?} has id {:?} (defined: {}), expected {:?}", n, v.get_nonterminal_id_by_name(n), v.is_nonterminal_name_defined(n), en)); }
  }
  Ok(())
}

pub fn c21(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let mut names: Vec<String> = vec!["_START".into(), "_STOP".into(), "aa".into()];
  for _ in 0..s.range(1, 8) {
    let n = match s.usize_below(5) { 4 => s.dict_str().to_string(), 0 => crate::lexmodel::word(s, true, 6), 1 => crate::lexmodel::word(s, false, 6), 2 => s.usize_below(12).to_string(), _ => crate::trees::any_text(s, 8) };
    names.push(n);
  }
  let large = s.chance(1, 1500);
  if large { for i in 0..s.range(50, 400) { names.push(format!("n{}", i)) } }
  let mut ids: Vec<usize> = (0..if large { s.range(60, 500) } else { s.range(2, 10) }).collect();
  for _ in 0..s.usize_below(4) { ids.push(*s.pick(&[1000usize, 255, 256, 257, 128, 65535, 65537, (1 << 32) + 1, 65536, usize::MAX, usize::MAX - 1, 1 << 32])) }
  if s.chance(1, 4) { ids.push(s.special(usize::MAX)) }
  let n = if large { s.range(200, 700) } else { s.size(10, 60) };
  let mut v = Vocabulary::new();
  let mut m = Model::default();
  m.t.insert(0, "_START".into()); m.t.insert(1, "_STOP".into());
  let mut hist = String::new();
  let (mut refused, mut added) = (0, 0);
  let mut step = 0;
  observe(&v, &m, &ids, &names)?;
  for _ in 0..n {
    let id = *s.pick(&ids);
    let name = s.pick(&names).clone();
    let (what, ok, got) = match s.usize_below(3) {
      0 => { let ok = !m.t.contains_key(&id) && !m.t.values().any(|x| *x == name); if ok { m.t.insert(id, name.clone()); } (format!("add_terminal({}, {:?})", id, name), ok, imp("add_terminal", || v.add_terminal(id, &name))?) },
      1 => { let ok = !m.n.contains_key(&id) && !m.n.values().any(|x| x.as_ref() == Some(&name)); if ok { m.n.insert(id, Some(name.clone())); } (format!("add_named_nonterminal({}, {:?})", id, name), ok, imp("add_named_nonterminal", || v.add_named_nonterminal(id, &name))?) },
      _ => { let ok = !m.n.contains_key(&id); if ok { m.n.insert(id, None); } (format!("add_unnamed_nonterminal({})", id), ok, imp("add_unnamed_nonterminal", || v.add_unnamed_nonterminal(id))?) },
    };
    hist.push_str(&what); hist.push_str("; ");
    if ok { added += 1 } else { refused += 1 }
    if got != ok { return Err(format!("after {}: the addition answered {}, expected {}", hist, got, ok)); }
    step += 1;
    if !large || step % 64 == 0 || step == n { observe(&v, &m, &ids, &names).map_err(|e| format!("after {}: {}", hist, e))?; }
    c.evals += 1;
  }
  c.case(hist);
  c.label_if(large, "history of hundreds of additions");
  c.label_if(refused > 0, "refused additions");
  c.label_if(m.t.keys().any(|k| m.n.contains_key(k)), "same id for terminal and non-terminal");
  c.nontrivial = added >= 2 && refused >= 1;
  Ok(())
}
