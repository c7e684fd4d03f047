//! Constants of the code under test as generator material (the "automatic dictionary" of a fuzzer).
//!
//! Every numeric, string and character literal of /repo's sources is collected; those that the tree this harness was
//! written for did not have come first. They only steer the generators towards sizes, names and texts next to which
//! the code might behave differently; no verdict depends on them.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Clone, Debug)]
pub struct Dict { pub nums: Vec<u64>, pub strs: Vec<String> }

const BASE: &str = include_str!("../literals.json");

/// literal -> occurrences; keys `n:<number>`, `s:<text>`, `w:<integer type>`
pub fn mine(dir: &Path) -> BTreeMap<String, u64> {
  let mut out = BTreeMap::new();
  let mut files = vec![];
  walk(dir, &mut files);
  files.sort();
  for f in files { if let Ok(t) = std::fs::read(&f) { lex(&String::from_utf8_lossy(&t), &mut out) } }
  out
}
fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
  if let Ok(r) = std::fs::read_dir(d) { for e in r.flatten() { let p = e.path(); if p.is_dir() { walk(&p, out) } else if matches!(p.extension().and_then(|x| x.to_str()), Some("rs") | Some("tera")) { out.push(p) } } }
}
fn lex(t: &str, out: &mut BTreeMap<String, u64>) {
  let c: Vec<char> = t.chars().collect();
  let mut i = 0;
  let mut add = |k: String| *out.entry(k).or_insert(0) += 1;
  while i < c.len() {
    let x = c[i];
    if x == '/' && c.get(i + 1) == Some(&'/') { while i < c.len() && c[i] != '\n' { i += 1 } continue; }
    if x == '/' && c.get(i + 1) == Some(&'*') { i += 2; while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1 } i += 2; continue; }
    if x.is_ascii_digit() {
      let s = i;
      while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
      let w: String = c[s..i].iter().filter(|x| **x != '_').collect();
      let w = w.to_lowercase();
      let v = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h.split(|x: char| !x.is_ascii_hexdigit()).next().unwrap_or(""), 16).ok() }
        else if let Some(b) = w.strip_prefix("0b") { u64::from_str_radix(b.split(|x| x != '0' && x != '1').next().unwrap_or(""), 2).ok() }
        else { w.split(|x: char| !x.is_ascii_digit()).next().unwrap_or("").parse().ok() };
      if let Some(v) = v { add(format!("n:{}", v)) }
      continue;
    }
    if x == 'r' && matches!(c.get(i + 1), Some('"') | Some('#')) {
      let mut j = i + 1; let mut h = 0;
      while c.get(j) == Some(&'#') { h += 1; j += 1 }
      if c.get(j) == Some(&'"') {
        j += 1; let s = j;
        while j < c.len() && !(c[j] == '"' && c[j + 1..].iter().take(h).filter(|x| **x == '#').count() == h) { j += 1 }
        add(format!("s:{}", c[s.min(j)..j.min(c.len())].iter().collect::<String>()));
        i = j + 1 + h;
        continue;
      }
    }
    if x.is_alphabetic() || x == '_' {
      let s = i;
      while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 }
      let w: String = c[s..i].iter().collect();
      if matches!(w.as_str(), "u8" | "i8" | "u16" | "i16" | "u32" | "i32") { add(format!("w:{}", w)) }
      continue;
    }
    if x == '"' {
      let mut r = String::new();
      i += 1;
      while i < c.len() && c[i] != '"' { if c[i] == '\\' { unesc(&c, &mut i, &mut r) } else { r.push(c[i]); i += 1 } }
      i += 1;
      add(format!("s:{}", r));
      continue;
    }
    if x == '\'' {
      // a character, not a life time
      if c.get(i + 1) == Some(&'\\') { let mut r = String::new(); i += 1; unesc(&c, &mut i, &mut r); add(format!("s:{}", r)); i += 1; continue; }
      if c.get(i + 2) == Some(&'\'') { add(format!("s:{}", c[i + 1])); i += 3; continue; }
    }
    i += 1;
  }
}
fn unesc(c: &[char], i: &mut usize, r: &mut String) {
  *i += 1;
  match c.get(*i) {
    Some('n') => r.push('\n'), Some('t') => r.push('\t'), Some('r') => r.push('\r'), Some('0') => r.push('\0'),
    Some('x') => { let h: String = c[*i + 1..].iter().take(2).collect(); if let Ok(v) = u8::from_str_radix(&h, 16) { r.push(v as char); *i += 2 } },
    Some('u') => { if let Some(e) = c[*i..].iter().position(|x| *x == '}') { let h: String = c[*i + 2..*i + e].iter().collect(); if let Some(k) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { r.push(k) } *i += e } },
    Some('\n') => {}, Some(k) => r.push(*k), None => {},
  }
  *i += 1;
}

fn base() -> BTreeMap<String, u64> { serde_json::from_str(BASE).unwrap_or_default() }
fn cook<'a>(keys: impl Iterator<Item = &'a String>) -> Dict {
  let mut d = Dict::default();
  for k in keys {
    let (kind, v) = k.split_at(2);
    match kind {
      "n:" => if let Ok(n) = v.parse::<u64>() { d.nums.push(n); if n <= 20 && n > 2 { d.nums.push(1 << n) } },
      "w:" => d.nums.push(match v { "u8" => 256, "i8" => 128, "u16" => 65536, "i16" => 32768, "u32" => 1 << 32, _ => 1 << 31 }),
      _ => if !v.is_empty() { let s: String = v.chars().take(200).collect(); d.strs.push(s) },
    }
  }
  d.nums.sort(); d.nums.dedup(); d.nums.truncate(40); d.strs.truncate(60);
  d
}
/// what `dir` has more often than the tree this harness was written for
pub fn fresh(dir: &Path) -> Dict { let b = base(); let m = mine(dir); cook(m.iter().filter(|(k, v)| **v > b.get(*k).copied().unwrap_or(0)).map(|(k, _)| k)) }
pub fn to_json(d: &Dict) -> String { serde_json::json!({ "nums": d.nums, "strs": d.strs }).to_string() }

pub struct All { pub fresh: Dict, pub base: Dict, words: [Vec<String>; 2], fresh_words: [Vec<String>; 2] }
static ALL: OnceLock<All> = OnceLock::new();
const BOUNDS: &[u64] = &[7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 299, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 65537];

fn word(v: &str, upper: bool) -> bool {
  let mut c = v.chars();
  let f = match c.next() { Some(f) => f, None => return false };
  (if upper { f.is_ascii_uppercase() } else { f.is_ascii_lowercase() }) && v.len() >= 2 && v.len() <= 60 && c.all(|x| x.is_ascii_alphanumeric() || x == '_') && v != "epsilon" && v != "fragment" && v != "Self"
}
pub fn all() -> &'static All {
  ALL.get_or_init(|| {
    let mut fresh = Dict::default();
    if let Ok(t) = std::env::var("VP_DICT") {
      if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
        fresh.nums = v["nums"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
        fresh.strs = v["strs"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect()).unwrap_or_default();
      }
    }
    let mut b = cook(base().keys().filter(|k| k.starts_with("s:") && k.len() < 40));
    b.nums = BOUNDS.to_vec();
    let ws = |d: &Dict, u: bool| -> Vec<String> { let mut v: Vec<String> = d.strs.iter().flat_map(|x| { let mut l = vec![x.clone(), x.to_lowercase(), x.to_uppercase(), x.trim_end_matches('_').into()]; if let Some(f) = x.chars().next() { if x.len() < 8 && !f.is_ascii_alphabetic() && x.chars().all(|k| k.is_ascii_alphanumeric() || k == '_') { l.push(format!("a{}", x)); l.push(format!("A{}", x)) } else if x.len() == 1 { l.push(format!("{}{}", x, x)); l.push(format!("{}0", x)) } } l }).filter(|x| word(x, u)).collect(); v.sort(); v.dedup(); v };
    All { words: [ws(&b, false), ws(&b, true)], fresh_words: [ws(&fresh, false), ws(&fresh, true)], fresh, base: b }
  })
}
use crate::engine::Source;
impl Source {
  /// a number near which the code under test might change its mind, at most `max`
  pub fn special(&mut self, max: usize) -> usize {
    let a = all();
    let fit = |v: &Vec<u64>| -> Vec<usize> { v.iter().filter(|x| **x <= max as u64).map(|x| *x as usize).collect() };
    let mut list = fit(&a.fresh.nums);
    if list.is_empty() || self.chance(1, 8) { list = fit(&a.base.nums) }
    if list.is_empty() { return self.range(0, max); }
    let v = *self.pick(&list);
    (match self.usize_below(4) { 0 | 1 => v, 2 => v.saturating_add(1), _ => v.saturating_sub(1) }).min(max)
  }
  pub fn has_fresh_nums(&self) -> bool { !all().fresh.nums.is_empty() }
  pub fn has_fresh_strs(&self) -> bool { !all().fresh.strs.is_empty() }
  /// a text the code under test mentions
  pub fn dict_str(&mut self) -> &'static str {
    let a = all();
    let list = if !a.fresh.strs.is_empty() && self.chance(7, 8) { &a.fresh.strs } else { &a.base.strs };
    if list.is_empty() { return ""; }
    self.pick(list)
  }
  /// an identifier the code under test mentions, if any
  pub fn dict_word(&mut self, upper: bool) -> Option<&'static str> {
    let a = all();
    let u = upper as usize;
    let list = if !a.fresh_words[u].is_empty() && self.chance(7, 8) { &a.fresh_words[u] } else { &a.words[u] };
    if list.is_empty() { return None; }
    Some(self.pick(list))
  }
}
