//! Own regular-expression AST with a backtracking (leftmost-first / Perl) matcher, printable in the syntax the
//! grammar language uses between slashes.

use crate::engine::Source;

#[derive(Clone, Debug)]
pub enum Rx {
  Empty,
  Ch(char),
  Spelled(&'static str, &'static [(char, char)]), // one character, written in some other way
  Any,                                   // . (not newline)
  Class(bool, Vec<(char, char)>),        // negated, ranges
  Cat(Vec<Rx>),
  Alt(Vec<Rx>),
  Rep(Box<Rx>, usize, Option<usize>, bool), // min, max, greedy
  Group(Box<Rx>),
}

impl Rx {
  /// can the expression match the empty string (used to keep repetition bodies non-nullable)
  pub fn nullable(&self) -> bool {
    match self {
      Rx::Empty => true,
      Rx::Ch(_) | Rx::Spelled(..) | Rx::Any | Rx::Class(..) => false,
      Rx::Cat(v) => v.iter().all(|x| x.nullable()),
      Rx::Alt(v) => v.iter().any(|x| x.nullable()),
      Rx::Rep(b, min, _, _) => *min == 0 || b.nullable(),
      Rx::Group(b) => b.nullable(),
    }
  }

  /// text between the slashes of a regular literal (slashes escaped)
  pub fn print(&self, o: &mut String) {
    match self {
      Rx::Empty => {},
      Rx::Ch(c) => print_char(*c, o),
      Rx::Spelled(t, _) => o.push_str(t),
      Rx::Any => o.push('.'),
      Rx::Class(neg, rs) => {
        o.push('[');
        if *neg { o.push('^') }
        for (a, b) in rs { class_char(*a, o); if a != b { o.push('-'); class_char(*b, o); } }
        o.push(']');
      },
      Rx::Cat(v) => for x in v { if let Rx::Alt(_) = x { o.push_str("(?:"); x.print(o); o.push(')'); } else { x.print(o) } },
      Rx::Alt(v) => for (i, x) in v.iter().enumerate() { if i > 0 { o.push('|') } x.print(o); },
      Rx::Rep(b, min, max, greedy) => {
        match **b { Rx::Ch(_) | Rx::Spelled(..) | Rx::Any | Rx::Class(..) | Rx::Group(_) => b.print(o), _ => { o.push('('); b.print(o); o.push(')'); } }
        match (min, max) {
          (0, None) => o.push('*'), (1, None) => o.push('+'), (0, Some(1)) => o.push('?'),
          (n, None) => o.push_str(&format!("{{{},}}", n)),
          (n, Some(m)) if n == m => o.push_str(&format!("{{{}}}", n)),
          (n, Some(m)) => o.push_str(&format!("{{{},{}}}", n, m)),
        }
        if !greedy { o.push('?') }
      },
      Rx::Group(b) => { o.push('('); b.print(o); o.push(')'); },
    }
  }
  pub fn text(&self) -> String { let mut s = String::new(); self.print(&mut s); s }

  /// length of the preferred match at the start of s
  /// (Err: the reference matcher gave up after too many steps - the caller skips the input)
  pub fn match_len(&self, s: &[char]) -> Result<Option<usize>, ()> {
    let mut steps = 0usize;
    let mut out = None;
    m(self, s, 0, &mut steps, &mut |p| { out = Some(p); true });
    if steps > STEP_LIMIT { return Err(()); }
    Ok(out)
  }
}

pub const STEP_LIMIT: usize = 300_000;
fn m(r: &Rx, s: &[char], p: usize, st: &mut usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
  *st += 1;
  if *st > STEP_LIMIT { return false; }
  match r {
    Rx::Empty => k(p),
    Rx::Ch(c) => p < s.len() && s[p] == *c && k(p + 1),
    Rx::Spelled(_, rs) => p < s.len() && rs.iter().any(|(a, b)| *a <= s[p] && s[p] <= *b) && k(p + 1),
    Rx::Any => p < s.len() && s[p] != '\n' && k(p + 1),
    Rx::Class(neg, rs) => p < s.len() && (rs.iter().any(|(a, b)| *a <= s[p] && s[p] <= *b) != *neg) && k(p + 1),
    Rx::Group(b) => m(b, s, p, st, k),
    Rx::Cat(v) => cat(v, s, p, st, k),
    Rx::Alt(v) => { for x in v { if m(x, s, p, st, k) { return true; } } false },
    Rx::Rep(b, min, max, greedy) => rep(b, *min, *max, *greedy, 0, s, p, st, k),
  }
}
fn cat(v: &[Rx], s: &[char], p: usize, st: &mut usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
  if v.is_empty() { return k(p); }
  // The step counter is shared through a raw re-borrow inside the continuation.
  let stp: *mut usize = st;
  m(&v[0], s, p, st, &mut |q| cat(&v[1..], s, q, unsafe { &mut *stp }, k))
}
fn rep(b: &Rx, min: usize, max: Option<usize>, greedy: bool, n: usize, s: &[char], p: usize, st: &mut usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
  let can_more = max.map(|m| n < m).unwrap_or(true);
  let can_stop = n >= min;
  let stp: *mut usize = st;
  let more = |k: &mut dyn FnMut(usize) -> bool| -> bool {
    can_more && m(b, s, p, unsafe { &mut *stp }, &mut |q| q > p && rep(b, min, max, greedy, n + 1, s, q, unsafe { &mut *stp }, k))
  };
  if greedy { if more(k) { return true; } can_stop && k(p) }
  else { if can_stop && k(p) { return true; } more(k) }
}

fn print_char(c: char, o: &mut String) {
  match c {
    '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), '\x0c' => o.push_str("\\f"),
    '/' => o.push_str("\\/"),
    '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' => { o.push('\\'); o.push(c) },
    _ => o.push(c),
  }
}
fn class_char(c: char, o: &mut String) {
  match c {
    '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), '\x0c' => o.push_str("\\f"),
    '/' => o.push_str("\\/"),
    '\\' | '[' | ']' | '^' | '-' | '&' | '~' | '#' => { o.push('\\'); o.push(c) },
    _ => o.push(c),
  }
}

pub const ALPHA: &[char] = &['a', 'b', 'c', 'A', 'B', '0', '1', '_', ' ', '/', '"', '#', '\'', '+', '*', '.', '(', ')', '|', '?', '-', '^', '$', '[', '{', '}', '\\', '\n', '\t', '=', '<', 'é', '中', 'ε', '`', '%', '&', '~', ',', ':', ';'];

pub fn gen_char(s: &mut Source) -> char { if s.chance(1, 2) { *s.pick(ALPHA) } else { ALPHA[s.usize_below(7)] } }

fn gen_class(s: &mut Source) -> Rx {
  let neg = s.chance(1, 4);
  let n = 1 + s.usize_below(3);
  let mut v = Vec::new();
  for _ in 0..n {
    match s.usize_below(4) {
      0 => { let c = gen_char(s); v.push((c, c)) },
      1 => v.push(('a', (b'a' + s.below(26) as u8) as char)),
      2 => v.push(('0', (b'0' + s.below(10) as u8) as char)),
      _ => v.push(('A', 'Z')),
    }
  }
  Rx::Class(neg, v)
}

pub const SPELLINGS: &[(&str, &[(char, char)])] = &[
  ("\n", &[('\n', '\n')]), ("\t", &[('\t', '\t')]), ("\\x61", &[('a', 'a')]), ("\\x2F", &[('/', '/')]), ("\\x2f", &[('/', '/')]), ("\\u{e9}", &[('é', 'é')]), ("\\u{4e2d}", &[('中', '中')]),
  ("[[:alpha:]]", &[('a', 'z'), ('A', 'Z')]), ("[[:^alpha:]]", &[('\0', '@'), ('[', '`'), ('{', '\u{10ffff}')]), ("(?-u:\\w)", &[('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')]), ("[\\/]", &[('/', '/')]), ("[^\\/]", &[('\0', '.'), ('0', '\u{10ffff}')]),
  ("(?i:b)", &[('b', 'b'), ('B', 'B')]), ("[a-c&&[^b]]", &[('a', 'a'), ('c', 'c')]), ("(?s:.)", &[('\0', '\u{10ffff}')]), ("(?-u:\\d)", &[('0', '9')]), ("[ ]", &[(' ', ' ')]), ("\\\"", &[('"', '"')]), ("\\#", &[('#', '#')]),
];

fn atom(s: &mut Source, d: usize) -> Rx {
  match s.weighted(&[16, 6, 2, if d > 0 { 6 } else { 0 }, 3]) {
    4 => { let (t, r) = *s.pick(SPELLINGS); Rx::Spelled(t, r) },
    0 => Rx::Ch(gen_char(s)),
    1 => gen_class(s),
    2 => Rx::Any,
    _ => Rx::Group(Box::new(gen(s, d - 1))),
  }
}
fn piece(s: &mut Source, d: usize) -> Rx {
  let a = atom(s, d);
  match s.weighted(&[10, 2, 2, 2, 1]) {
    0 => a,
    k => {
      if a.nullable() { return a; }
      let greedy = !s.chance(1, 6);
      let (lo, hi) = match k { 1 => (0, None), 2 => (1, None), 3 => (0, Some(1)), _ => { let lo = s.usize_below(3); (lo, Some(lo + 1 + s.usize_below(2))) } };
      Rx::Rep(Box::new(a), lo, hi, greedy)
    },
  }
}
pub fn gen(s: &mut Source, d: usize) -> Rx {
  let n = if s.chance(1, 3) { 2 + s.usize_below(3) } else { 1 };
  let mut alts = Vec::new();
  for _ in 0..n {
    let m = 1 + s.size(3, 8);
    let mut v = Vec::new();
    for _ in 0..m { v.push(piece(s, d)); }
    alts.push(Rx::Cat(v));
  }
  if alts.len() == 1 { alts.pop().unwrap() } else { Rx::Alt(alts) }
}

/// a text the expression is likely to match (sampled), used to build inputs
pub fn sample(r: &Rx, s: &mut Source, o: &mut String) {
  match r {
    Rx::Empty => {},
    Rx::Ch(c) => o.push(*c),
    Rx::Spelled(_, rs) => { let (a, b) = *s.pick(rs); let c = if s.chance(1, 2) { a } else { b }; o.push(c) },
    Rx::Any => { let c = gen_char(s); o.push(if c == '\n' { 'q' } else { c }) },
    Rx::Class(neg, rs) => {
      if *neg { let c = gen_char(s); o.push(c) }
      else { let (a, b) = *s.pick(rs); let c = char::from_u32(a as u32 + s.below((b as u64).saturating_sub(a as u64) + 1) as u32).unwrap_or(a); o.push(c) }
    },
    Rx::Cat(v) => for x in v { sample(x, s, o) },
    Rx::Alt(v) => { let i = s.usize_below(v.len()); sample(&v[i], s, o) },
    Rx::Rep(b, min, max, _) => { let hi = max.unwrap_or(min + 4); let n = s.range(*min, hi); for _ in 0..n { sample(b, s, o) } },
    Rx::Group(b) => sample(b, s, o),
  }
}

/// The regex crate factors common prefixes out of alternatives without regard to priorities and so gives wrong spans for
/// a few expressions, e.g. `^(.+a\(aaa.a|.+\()` on `aa(aaaaa`. That is not the repository's doing: an expected answer is
/// used only where the crate, given the reference spelling of the expression, agrees with the own matcher.
pub fn reference(r: &Rx) -> Result<regex::Regex, String> { regex::Regex::new(&format!("^({})", r.text())).map_err(|e| format!("HARNESS:{}", e)) }
/// byte length of the preferred match, where it is agreed
pub fn agreed(r: &Rx, re: &regex::Regex, text: &str, cs: &[char]) -> Result<Option<usize>, ()> {
  let k = r.match_len(cs)?.map(|k| cs[..k].iter().map(|c| c.len_utf8()).sum::<usize>());
  if re.find(text).map(|m| (m.start(), m.end())) != k.map(|k| (0, k)) { return Err(()); }
  Ok(k)
}
