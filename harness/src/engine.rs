//! Choice-sequence property-testing engine.
//!
//! Every random decision of a case is an integer drawn through `Source`; the recorded sequence *is* the case.
//! Shrinking edits the sequence and re-decodes; replaying feeds the sequence back. A draw past the end of a
//! replayed sequence is 0, and generators arrange that 0 is always the simplest choice.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::unix::io::RawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Self { Rng(seed) }
  pub fn next(&mut self) -> u64 {
    // splitmix64
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
}

pub fn fnv(data: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in data { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
  // final avalanche
  let mut r = Rng::new(h);
  r.next()
}

pub fn case_rng(seed: u64, prop: &str, case: u64) -> Rng {
  let mut r = Rng::new(seed ^ fnv(prop.as_bytes()));
  let a = r.next();
  let mut r2 = Rng::new(a ^ case.wrapping_mul(0xD1342543DE82EF95));
  r2.next();
  r2
}

enum Feed { Random(Rng), Replay(Vec<u64>), Bytes(Vec<u8>) }

pub struct Source { feed: Feed, pos: usize, pub rec: Vec<u64>, specials: u8 }

const MAX_DRAWS: usize = 400_000;

impl Source {
  pub fn random(rng: Rng) -> Self { Source { feed: Feed::Random(rng), pos: 0, rec: Vec::new(), specials: 0 } }
  pub fn replay(v: Vec<u64>) -> Self { Source { feed: Feed::Replay(v), pos: 0, rec: Vec::new(), specials: 0 } }
  pub fn bytes(v: Vec<u8>) -> Self { Source { feed: Feed::Bytes(v), pos: 0, rec: Vec::new(), specials: 0 } }

  /// uniform in 0..n
  pub fn below(&mut self, n: u64) -> u64 {
    if n <= 1 { return 0; }
    if self.rec.len() >= MAX_DRAWS { return 0; }
    let v = match &mut self.feed {
      Feed::Random(r) => r.next() % n,
      Feed::Replay(v) => { let x = v.get(self.pos).copied().unwrap_or(0); self.pos += 1; if x >= n { n - 1 } else { x } },
      Feed::Bytes(b) => {
        let need = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 8 };
        let mut x: u64 = 0;
        for _ in 0..need { x = (x << 8) | b.get(self.pos).copied().unwrap_or(0) as u64; self.pos += 1; }
        x % n
      },
    };
    self.rec.push(v);
    v
  }
  pub fn usize_below(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
  /// inclusive range, lo is simplest
  pub fn range(&mut self, lo: usize, hi: usize) -> usize { if hi <= lo { lo } else { lo + self.below((hi - lo + 1) as u64) as usize } }
  /// true with probability num/den; 0 -> false
  pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
  pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { let i = self.usize_below(items.len()); &items[i] }
  pub fn weighted(&mut self, w: &[u64]) -> usize {
    let total: u64 = w.iter().sum();
    let mut v = self.below(total);
    for (i, x) in w.iter().enumerate() { if v < *x { return i; } v -= *x; }
    w.len() - 1
  }
  /// length: mostly small, occasionally up to max
  pub fn size(&mut self, small: usize, max: usize) -> usize {
    if max <= small { return self.range(0, max); }
    // in some cases, at most twice: a size next to a constant of the code under test, beyond `max` if need be
    if self.specials == 0 { self.specials = if self.chance(1, if self.has_fresh_nums() { 8 } else { 50 }) { 2 } else { 9 } }
    if self.specials < 4 && self.chance(1, 6) { self.specials += 1; return self.special(max.max(300)); }
    match self.weighted(&[12, 4, 1]) {
      0 => self.range(0, small),
      1 => self.range(0, (small * 3).min(max)),
      _ => self.range(0, max),
    }
  }
  pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() { let j = i - self.usize_below(i + 1); v.swap(i, j); }
  }
}

#[derive(Default)]
pub struct Ctx {
  pub labels: BTreeMap<String, u64>,
  pub nontrivial: bool,
  pub case: String,
  pub evals: u64,
}
impl Ctx {
  pub fn label(&mut self, l: &str) { *self.labels.entry(l.to_string()).or_insert(0) += 1; }
  pub fn label_if(&mut self, b: bool, l: &str) { if b { self.label(l) } }
  pub fn case(&mut self, s: String) { self.case = s; }
}

pub type Check = fn(&mut Source, &mut Ctx) -> Result<(), String>;

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
      else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".to_string() };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
  }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Call into the code under test; a panic becomes an Err naming the call.
pub fn imp<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
  let was = status_imp(1);
  let r = catch_unwind(AssertUnwindSafe(f));
  status_imp(was);
  match r {
    Ok(v) => Ok(v),
    Err(_) => Err(format!("panic in {}: {}", what, last_panic())),
  }
}

// ---------------------------------------------------------------- status page shared with the parent

static STATUS: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Map `file` (3 words: case index, inside code under test?, CPU-independent progress counter).
pub fn status_install(file: &str) {
  use std::os::unix::io::AsRawFd;
  let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(file).expect("status file");
  f.set_len(4096).expect("status file");
  unsafe {
    let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
    assert!(p != libc::MAP_FAILED);
    STATUS.store(p as *mut u64, std::sync::atomic::Ordering::SeqCst);
  }
}
fn status_imp(v: u64) -> u64 {
  let p = STATUS.load(std::sync::atomic::Ordering::Relaxed);
  if p.is_null() { return 0; }
  unsafe { let old = p.add(1).read_volatile(); p.add(1).write_volatile(v); old }
}
pub fn status_case(i: u64) {
  let p = STATUS.load(std::sync::atomic::Ordering::Relaxed);
  if p.is_null() { return; }
  unsafe { p.write_volatile(i); p.add(1).write_volatile(0); let n = p.add(2).read_volatile(); p.add(2).write_volatile(n + 1); }
}
pub fn status_get() -> (u64, u64, u64) {
  let p = STATUS.load(std::sync::atomic::Ordering::Relaxed);
  if p.is_null() { return (0, 0, 0); }
  unsafe { (p.read_volatile(), p.add(1).read_volatile(), p.add(2).read_volatile()) }
}

// ---------------------------------------------------------------- stdout capture

static mut CAP_FD: RawFd = -1;
pub static mut SAVED_OUT: RawFd = -1;

/// Redirect fds 1 and 2 into a memfd so that everything the code under test prints can be observed.
pub fn capture_install() {
  unsafe {
    let name = b"vpcap\0";
    let fd = libc::memfd_create(name.as_ptr() as *const libc::c_char, 0);
    assert!(fd >= 0);
    SAVED_OUT = libc::dup(1);
    CAP_FD = fd;
    libc::dup2(fd, 1);
    libc::dup2(fd, 2);
  }
}
fn cap_flush() { use std::io::Write; let _ = std::io::stdout().flush(); let _ = std::io::stderr().flush(); }
pub fn cap_reset() {
  unsafe { if CAP_FD < 0 { return; } }
  cap_flush();
  unsafe { libc::ftruncate(CAP_FD, 0); libc::lseek(CAP_FD, 0, libc::SEEK_SET); }
}
/// Everything printed since the last reset; resets.
pub fn cap_take() -> String {
  unsafe { if CAP_FD < 0 { return String::new(); } }
  cap_flush();
  unsafe {
    let n = libc::lseek(CAP_FD, 0, libc::SEEK_END);
    let mut buf = vec![0u8; n.max(0) as usize];
    let mut off = 0usize;
    while off < buf.len() {
      let r = libc::pread(CAP_FD, buf.as_mut_ptr().add(off) as *mut libc::c_void, buf.len() - off, off as i64);
      if r <= 0 { break; }
      off += r as usize;
    }
    libc::ftruncate(CAP_FD, 0);
    libc::lseek(CAP_FD, 0, libc::SEEK_SET);
    String::from_utf8_lossy(&buf).into_owned()
  }
}

// ---------------------------------------------------------------- running one case

pub enum Outcome { Pass, Fail(String), HarnessError(String) }

pub fn run_case(check: Check, src: &mut Source, ctx: &mut Ctx) -> Outcome {
  cap_reset();
  let r = catch_unwind(AssertUnwindSafe(|| check(src, ctx)));
  match r {
    Ok(Ok(())) => Outcome::Pass,
    Ok(Err(m)) => { if let Some(h) = m.strip_prefix("HARNESS:") { Outcome::HarnessError(h.to_string()) } else { Outcome::Fail(m) } },
    Err(_) => {
      let m = last_panic();
      // a panic raised by a line of the code under test is its own, wherever the harness called it from
      if m.rsplit(" at ").next().map(|l| l.starts_with("/repo/")).unwrap_or(false) { Outcome::Fail(format!("panic: {}", m)) }
      else { Outcome::HarnessError(format!("harness panic: {}", m)) }
    },
  }
}

/// Shrink a failing choice sequence. `fails` returns Some(recorded choices) when the candidate still fails.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
  let mut best = start;
  let mut used = 0usize;
  let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
  loop {
    let mut improved = false;
    // 1. delete chunks
    let mut k = 64usize.min(best.len().max(1));
    while k >= 1 {
      let mut i = 0;
      while i + k <= best.len() {
        if used >= budget { return best; }
        let mut cand = best.clone();
        cand.drain(i..i + k);
        used += 1;
        if let Some(rec) = fails(&cand) { if better(&rec, &best) { best = rec; improved = true; continue; } }
        i += k;
      }
      k /= 2;
    }
    // 2. zero chunks
    let mut k = 16usize;
    while k >= 1 {
      let mut i = 0;
      while i < best.len() {
        if used >= budget { return best; }
        let end = (i + k).min(best.len());
        if best[i..end].iter().any(|x| *x != 0) {
          let mut cand = best.clone();
          for x in &mut cand[i..end] { *x = 0; }
          used += 1;
          if let Some(rec) = fails(&cand) { if better(&rec, &best) { best = rec; improved = true; } }
        }
        i += k;
      }
      k /= 2;
    }
    // 3. lower single values
    let mut i = 0;
    while i < best.len() {
      let mut lo = 0u64;
      while i < best.len() && lo < best[i] {
        if used >= budget { return best; }
        let mid = lo + (best[i] - lo) / 2;
        let mut cand = best.clone();
        cand[i] = mid;
        used += 1;
        match fails(&cand) {
          Some(rec) if better(&rec, &best) => { best = rec; improved = true; },
          _ => { lo = mid + 1; },
        }
      }
      i += 1;
    }
    if !improved { return best; }
  }
}
