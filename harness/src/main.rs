//! vp check <ID> | vp worker ... | vp one ... | vp replay <file> | vp list
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vp::engine::*;
use vp::props::{self, Prop};

const VERIF: &str = "/verif";
const REPO: &str = "/repo";
const CASE_CPU: f64 = 60.0;
const STACK: usize = 512 << 20;

fn env_u64(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|v| v.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(d) }
fn die(m: &str) -> ! { eprintln!("vp: {}", m); println!("ERROR {}", m); std::process::exit(2) }

fn copy_tree(from: &Path, to: &Path) -> std::io::Result<()> {
  std::fs::create_dir_all(to)?;
  for e in std::fs::read_dir(from)? {
    let e = e?;
    let t = e.file_type()?;
    if t.is_dir() { copy_tree(&e.path(), &to.join(e.file_name()))? } else { std::fs::copy(e.path(), to.join(e.file_name()))?; }
  }
  Ok(())
}
/// a directory that looks to the code under test like the repository root, holding only the data files it reads
fn make_root(dir: &Path) -> std::io::Result<()> {
  std::fs::create_dir_all(dir)?;
  copy_tree(&Path::new(REPO).join("src/tool/templates"), &dir.join("src/tool/templates"))?;
  std::fs::create_dir_all(dir.join("src/tool/syntaxis"))?;
  for e in std::fs::read_dir(Path::new(REPO).join("src/tool/syntaxis"))? { let e = e?; if e.path().extension().map(|x| x != "rs").unwrap_or(false) { std::fs::copy(e.path(), dir.join("src/tool/syntaxis").join(e.file_name()))?; } }
  Ok(())
}

fn cpu() -> f64 {
  unsafe {
    let mut t: libc::timespec = std::mem::zeroed();
    libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
  }
}

/// exit code 77: the case exceeded its CPU allowance inside the code under test; 78: outside
fn watchdog() {
  std::thread::spawn(|| {
    let mut last = (0, cpu(), Instant::now());
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let (_, imp, n) = status_get();
      if n != last.0 { last = (n, cpu(), Instant::now()); continue; }
      if cpu() - last.1 > CASE_CPU || last.2.elapsed().as_secs() > 900 { unsafe { libc::_exit(if imp != 0 { 77 } else { 78 }) } }
    }
  });
}

fn limits() {
  unsafe {
    let mut r: libc::rlimit = std::mem::zeroed();
    libc::getrlimit(libc::RLIMIT_AS, &mut r);
    r.rlim_cur = 6 << 30;
    libc::setrlimit(libc::RLIMIT_AS, &r);
    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &z);
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
  }
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
  std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(3))
}

fn attempt(p: &'static Prop, src: &mut Source) -> (Outcome, Ctx) {
  let mut c = Ctx::default();
  let o = run_case(p.check, src, &mut c);
  (o, c)
}

fn write_json(f: &Path, v: &Value) { let tmp = f.with_extension("tmp"); std::fs::write(&tmp, serde_json::to_vec(v).unwrap()).and_then(|_| std::fs::rename(&tmp, f)).unwrap_or_else(|e| die(&format!("{:?}: {}", f, e))) }

// ------------------------------------------------------------------ worker

fn worker(a: &[String]) {
  let p = props::find(&a[0]).unwrap_or_else(|| die("unknown property"));
  let seed: u64 = a[1].parse().unwrap();
  let (from, step, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
  let cap: f64 = a[5].parse().unwrap();
  let dir = PathBuf::from(&a[6]);
  std::env::set_current_dir(&dir).unwrap();
  limits();
  status_install(dir.join("status").to_str().unwrap());
  install_panic_hook();
  capture_install();
  watchdog();
  big_stack(move || {
    let t0 = Instant::now();
    let (mut evals, mut cases) = (0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<(u64, String)> = vec![];
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut nontrivial = 0u64;
    let mut slowest = (0.0f64, 0u64);
    let mut i = from;
    let mut capped = false;
    while i < to {
      if t0.elapsed().as_secs_f64() > cap { capped = true; break; }
      status_case(i);
      let ct = cpu();
      let mut src = Source::random(case_rng(seed, p.id, i));
      let (o, c) = attempt(p, &mut src);
      let ct = cpu() - ct;
      if ct > slowest.0 { slowest = (ct, i) }
      cases += 1;
      evals += c.evals.max(1);
      for (k, v) in c.labels { *labels.entry(k).or_insert(0) += v; }
      match o {
        Outcome::Pass => {
          if c.nontrivial { nontrivial += 1; if seen.insert(fnv(c.case.as_bytes())) && samples.len() < 3 && c.case.len() < 1500 { samples.push((i, c.case)) } }
        },
        Outcome::HarnessError(m) => { write_json(&dir.join("error.json"), &json!({ "case": i, "message": m })); unsafe { libc::_exit(4) } },
        Outcome::Fail(m) => {
          let save = |ch: &[u64], m: &str, case: &str, shrunk: bool| write_json(&dir.join("fail.json"), &json!({ "property": p.id, "seed": seed, "case": i, "choices": ch, "message": m, "input": case, "shrunk": shrunk }));
          save(&src.rec, &m, &c.case, false);
          let st = Instant::now();
          let (mut bm, mut bc) = (m, c.case);
          let best = shrink(src.rec.clone(), 4000, |cand| {
            if st.elapsed().as_secs() > 60 { return None; }
            status_case(i);
            let mut s2 = Source::replay(cand.to_vec());
            match attempt(p, &mut s2) { (Outcome::Fail(m), c) => { bm = m; bc = c.case; Some(s2.rec) }, _ => None }
          });
          let mut s2 = Source::replay(best.clone());
          if let (Outcome::Fail(m), c) = attempt(p, &mut s2) { bm = m; bc = c.case; save(&s2.rec, &bm, &bc, true) }
          unsafe { libc::_exit(1) }
        },
      }
      i += step;
    }
    write_json(&dir.join("result.json"), &json!({ "cases": cases, "evals": evals, "nontrivial": nontrivial, "hashes": seen.iter().map(|h| format!("{:016x}", h)).collect::<Vec<_>>(), "samples": samples, "labels": labels, "slowest": [slowest.0, slowest.1], "capped": capped }));
    unsafe { libc::_exit(0) }
  });
}

/// run one choice sequence in this process; exit 0 pass, 1 fail (message on stdout), 4 harness error
fn one(a: &[String]) {
  let p = props::find(&a[0]).unwrap_or_else(|| die("unknown property"));
  let dir = PathBuf::from(&a[1]);
  let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap_or_else(|e| die(&format!("{}: {}", a[2], e)))).unwrap_or_else(|e| die(&format!("{}", e)));
  std::env::set_current_dir(&dir).unwrap();
  limits();
  status_install(dir.join("status").to_str().unwrap());
  install_panic_hook();
  capture_install();
  watchdog();
  big_stack(move || {
    status_case(0);
    let mut src = match v["choices"].as_array() {
      Some(ch) => Source::replay(ch.iter().map(|x| x.as_u64().unwrap()).collect()),
      None => Source::random(case_rng(v["seed"].as_u64().unwrap(), p.id, v["case"].as_u64().unwrap())),
    };
    // remember the choices even if the case brings the process down
    let (o, c) = attempt(p, &mut src);
    let (code, msg) = match o { Outcome::Pass => (0, String::new()), Outcome::Fail(m) => (1, m), Outcome::HarnessError(m) => (4, m) };
    write_json(&dir.join("one.json"), &json!({ "choices": src.rec, "message": msg, "input": c.case }));
    unsafe { libc::_exit(code) }
  });
}

fn canary(a: &[String]) {
  let dir = PathBuf::from(&a[1]);
  std::env::set_current_dir(&dir).unwrap();
  limits();
  install_panic_hook();
  capture_install();
  let id = a[0].clone();
  big_stack(move || {
    let r = std::panic::catch_unwind(|| props::canaries(&id));
    match r {
      Ok(Ok(v)) => { write_json(&dir.join("canary.json"), &json!(v)); unsafe { libc::_exit(0) } },
      Ok(Err(m)) => { write_json(&dir.join("canary.json"), &json!({ "error": m })); unsafe { libc::_exit(4) } },
      Err(_) => { write_json(&dir.join("canary.json"), &json!({ "error": last_panic() })); unsafe { libc::_exit(4) } },
    }
  });
}

fn spawn(args: &[String]) -> Child {
  Command::new(std::env::current_exe().unwrap()).args(args).stdin(Stdio::null()).spawn().unwrap_or_else(|e| die(&format!("spawn: {}", e)))
}
fn s(x: impl ToString) -> String { x.to_string() }

struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn ends_badly(st: &std::process::ExitStatus) -> Option<String> {
  use std::os::unix::process::ExitStatusExt;
  if let Some(sig) = st.signal() { return Some(format!("the process dies with signal {}", sig)); }
  match st.code() { Some(77) => Some(format!("no answer within {} s of CPU time", CASE_CPU)), Some(0) | Some(1) | Some(4) | Some(78) => None, c => Some(format!("the process exits with {:?}", c)) }
}

/// run a description in isolation
fn isolated(id: &str, dir: &Path, v: &Value) -> (std::process::ExitStatus, Value) {
  let f = dir.join("one-in.json");
  write_json(&f, v);
  let _ = std::fs::remove_file(dir.join("one.json"));
  let st = spawn(&[s("one"), s(id), s(dir.display()), s(f.display())]).wait().unwrap();
  let out = std::fs::read_to_string(dir.join("one.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
  (st, out)
}

fn kid_no(d: &Path) -> u64 { d.file_name().and_then(|x| x.to_str()).and_then(|x| x[1..].parse().ok()).unwrap_or(0) }

fn save_replay(id: &str, v: &Value) -> PathBuf {
  let dir = Path::new(VERIF).join("replays");
  let _ = std::fs::create_dir_all(&dir);
  let mut v = v.clone();
  v["dict"] = std::env::var("VP_DICT").ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
  let text = serde_json::to_string_pretty(&v).unwrap();
  let f = dir.join(format!("{}-{:012x}.json", id, fnv(text.as_bytes()) & 0xffffffffffff));
  std::fs::write(&f, text).unwrap_or_else(|e| die(&format!("{:?}: {}", f, e)));
  f
}

fn check(id: &str) -> i32 {
  let p = props::find(id).unwrap_or_else(|| die(&format!("unknown property {}", id)));
  let t0 = Instant::now();
  let seed = env_u64("VERIF_SEED", 1);
  let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
  let n = env_u64("VP_CASES", if tier == "quick" { p.quick } else { p.quick * 40 });
  let cap = env_u64("VP_CAP", if tier == "quick" { 150 } else { 780 }) as f64;
  let w = 8u64.min(std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8)).max(1);
  let dict = vp::dict::to_json(&vp::dict::fresh(Path::new("/repo/src")));
  std::env::set_var("VP_DICT", &dict);
  let root = Scratch(Path::new(VERIF).join("scratch").join(format!("run-{}-{}", id, std::process::id())));
  let _ = std::fs::remove_dir_all(&root.0);
  let mut kids: Vec<(Option<Child>, PathBuf)> = vec![];
  for k in 0..w {
    let d = root.0.join(format!("w{}", k));
    make_root(&d).unwrap_or_else(|e| die(&format!("scratch: {}", e)));
    kids.push((Some(spawn(&[s("worker"), s(id), s(seed), s(k), s(w), s(n), s(cap), s(d.display())])), d));
  }
  let mut violation: Option<Value> = None;
  let mut error: Option<String> = None;
  let mut live = w;
  while live > 0 {
    std::thread::sleep(Duration::from_millis(20));
    for (k, d) in kids.iter_mut() {
      let Some(c) = k else { continue };
      let Some(st) = c.try_wait().unwrap() else { continue };
      *k = None; live -= 1;
      if violation.is_some() { continue }
      let fail = std::fs::read_to_string(d.join("fail.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
      if let Some(f) = fail { violation = Some(f); continue }
      if st.code() == Some(0) { continue }
      if st.code() == Some(4) { error = Some(format!("harness: {}", std::fs::read_to_string(d.join("error.json")).unwrap_or_default())); continue }
      // the worker died: repeat its last case alone
      let case = std::fs::read(d.join("status")).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(0);
      let desc = json!({ "seed": seed, "case": case });
      let (st2, out) = isolated(id, d, &desc);
      match ends_badly(&st2) {
        Some(m) => violation = Some(json!({ "property": id, "seed": seed, "case": case, "choices": Value::Null, "message": format!("case {} (seed {}): {}", case, seed, m), "input": Value::Null, "shrunk": false })),
        None if st2.code() == Some(1) => violation = Some(json!({ "property": id, "seed": seed, "case": case, "choices": out["choices"], "message": out["message"], "input": out["input"], "shrunk": false })),
        None => {
          // only after the cases before it? repeat the worker up to that case
          let k = kid_no(d);
          let st3 = spawn(&[s("worker"), s(id), s(seed), s(k), s(w), s(case + 1), s(cap), s(d.display())]).wait().unwrap();
          match ends_badly(&st3) {
            Some(m) => violation = Some(json!({ "property": id, "seed": seed, "case": case, "choices": Value::Null, "message": format!("after the cases {}, {}, ... {} in one process (seed {}): {}", k, k + w, case, seed, m), "input": Value::Null, "shrunk": false, "worker": [k, w, case + 1] })),
            None => error = Some(format!("worker ended with {} at case {}, which alone ends with {} and after the same history with {}", st, case, st2, st3)),
          }
        },
      }
    }
    // an error of the harness does not hide a violation another worker may find
    if violation.is_some() { for (k, _) in kids.iter_mut() { if let Some(c) = k { let _ = c.kill(); let _ = c.wait(); } *k = None; } live = 0; }
  }
  // merge
  let (mut cases, mut evals, mut nontrivial) = (0u64, 0u64, 0u64);
  let mut hashes: HashSet<String> = HashSet::new();
  let mut samples: Vec<Value> = vec![];
  let mut labels: BTreeMap<String, u64> = BTreeMap::new();
  let mut slow = 0.0f64;
  let mut capped = false;
  for (_, d) in &kids {
    let Some(r) = std::fs::read_to_string(d.join("result.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { continue };
    cases += r["cases"].as_u64().unwrap(); evals += r["evals"].as_u64().unwrap(); nontrivial += r["nontrivial"].as_u64().unwrap();
    for h in r["hashes"].as_array().unwrap() { hashes.insert(h.as_str().unwrap().to_string()); }
    for x in r["samples"].as_array().unwrap() { if samples.len() < 8 { samples.push(json!({ "case": x[0], "input": x[1] })) } }
    for (k, v) in r["labels"].as_object().unwrap() { *labels.entry(k.clone()).or_insert(0) += v.as_u64().unwrap(); }
    slow = slow.max(r["slowest"][0].as_f64().unwrap_or(0.0));
    capped |= r["capped"].as_bool().unwrap_or(false);
  }
  // listed findings
  let mut code = 0;
  let mut known_lines = vec![];
  if violation.is_none() && error.is_none() {
    let d = &kids[0].1;
    let st = spawn(&[s("canary"), s(id), s(d.display())]).wait().unwrap();
    let v: Value = std::fs::read_to_string(d.join("canary.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    if st.code() != Some(0) { error = Some(format!("findings check: {} {}", st, v)) }
    let listed: Value = std::fs::read_to_string(Path::new(VERIF).join("known_findings.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    for x in v.as_array().into_iter().flatten() {
      if x[1] != json!(true) { continue }
      let key = x[0].as_str().unwrap_or("");
      let hit = listed["findings"].as_array().into_iter().flatten().find(|f| f["property"] == id && f["key"] == key && f["status"] == "open");
      match hit {
        Some(f) => known_lines.push(format!("KNOWN-FINDING: property={} {}", id, f["what"].as_str().unwrap_or(key))),
        None => violation = Some(json!({ "property": id, "seed": seed, "case": Value::Null, "choices": Value::Null, "message": key, "input": key, "shrunk": true })),
      }
    }
  }
  let cases_field = if cases == evals { Value::Null } else { json!(cases) };
  if samples.is_empty() { if let Some(f) = &violation { samples.push(json!({ "case": f["case"], "input": f["input"] })) } }
  let ev = json!({
    "property": id, "tier": tier, "seed": seed as i64, "level": "exploration",
    "coverage": {
      "evaluations": evals, "cases": cases_field, "distinct_nontrivial": hashes.len(), "nontrivial_cases": nontrivial, "rule": p.rule, "samples": samples,
      "labels": labels, "workers": w, "stopped_by_time": capped, "slowest_case_cpu_s": (slow * 1000.0).round() / 1000.0,
    },
    "assumptions": p.assumptions, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": if violation.is_some() { 1 } else { 0 },
  });
  let mut ev = ev;
  if let Some(cv) = ev["coverage"].as_object_mut() { if cv["cases"].is_null() { cv.remove("cases"); } }
  let _ = std::fs::create_dir_all(Path::new(VERIF).join("evidence"));
  std::fs::write(Path::new(VERIF).join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap_or_else(|e| die(&format!("evidence: {}", e)));
  if let Some(f) = violation {
    let r = save_replay(id, &f);
    println!("property {} is violated: {}", id, f["message"].as_str().unwrap_or(""));
    println!("input: {}", f["input"].as_str().unwrap_or(""));
    println!("VIOLATION property={} replay={}", id, r.display());
    code = 1;
  } else if let Some(e) = error { eprintln!("vp: {}", e); println!("ERROR {}", e); code = 2; }
  else {
    for l in known_lines { println!("{}", l) }
    println!("{} held: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s{}", id, cases, evals, hashes.len(), t0.elapsed().as_secs_f64(), if capped { " (time limit reached)" } else { "" });
  }
  code
}

fn replay(f: &str) -> i32 {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{}: {}", f, e)))).unwrap_or_else(|e| die(&format!("{}", e)));
  let id = v["property"].as_str().unwrap_or_else(|| die("no property in the file"));
  std::env::set_var("VP_DICT", v["dict"].to_string());
  let root = Scratch(Path::new(VERIF).join("scratch").join(format!("replay-{}", std::process::id())));
  make_root(&root.0).unwrap_or_else(|e| die(&format!("scratch: {}", e)));
  if let Some(a) = v["worker"].as_array() {
    let st = spawn(&[s("worker"), s(id), s(v["seed"].as_u64().unwrap_or(1)), s(&a[0]), s(&a[1]), s(&a[2]), s(780), s(root.0.display())]).wait().unwrap();
    return match ends_badly(&st) { Some(m) => { println!("{}\nVIOLATION property={} replay={}", m, id, f); 1 }, None => { println!("passes"); 0 } };
  }
  let (st, out) = isolated(id, &root.0, &v);
  if let Some(m) = ends_badly(&st) { println!("{}\nVIOLATION property={} replay={}", m, id, f); return 1; }
  match st.code() {
    Some(0) => { println!("passes: {}", out["input"].as_str().unwrap_or("")); 0 },
    Some(1) => { println!("{}\ninput: {}\nVIOLATION property={} replay={}", out["message"].as_str().unwrap_or(""), out["input"].as_str().unwrap_or(""), id, f); 1 },
    _ => { println!("ERROR {} {}", st, out); 2 },
  }
}

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  match a.first().map(|x| x.as_str()) {
    Some("worker") => worker(&a[1..]),
    Some("one") => one(&a[1..]),
    Some("canary") => canary(&a[1..]),
    Some("check") => { let c = check(&a[1]); std::process::exit(c) },
    Some("replay") => { let c = replay(&a[1]); std::process::exit(c) },
    Some("literals") => println!("{}", serde_json::to_string_pretty(&vp::dict::mine(Path::new("/repo/src"))).unwrap()),
    Some("list") => for p in props::PROPS { println!("{}", p.id) },
    _ => die("usage: vp check ID | vp replay FILE | vp list"),
  }
}
