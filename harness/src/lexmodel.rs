//! Hand-written reference scanners for the two grammar-file lexers, position bookkeeping, and the
//! generator of grammar-like input texts.

use crate::engine::Source;
use syntaxis::runtime::token::Token;

fn ident(s: &str, first: impl Fn(char) -> bool) -> usize {
  // [first][a-zA-Z0-9_]+
  let mut it = s.chars();
  match it.next() { Some(c) if first(c) => {}, _ => return 0 }
  let mut n = 0;
  for c in it { if c.is_ascii_alphanumeric() || c == '_' { n += 1 } else { break } }
  if n == 0 { 0 } else { 1 + n }
}
fn lit(s: &str, l: &str) -> usize { if s.starts_with(l) { l.len() } else { 0 } }
fn run(s: &str, set: &[char]) -> usize { s.chars().take_while(|c| set.contains(c)).map(|c| c.len_utf8()).sum() }
fn colon(s: &str) -> usize { for l in ["::=", ":=", "->", "=>", ":", "="] { if s.starts_with(l) { return l.len(); } } 0 }
fn epsilon(s: &str) -> usize { lit(s, "ε").max(lit(s, "epsilon")) }

/// length of an escape sequence at the start of s (s starts with a backslash), 0 if none
fn escape_len(s: &str) -> usize {
  let b = s.as_bytes();
  if b.len() < 2 { return 0; }
  match b[1] {
    b'\\' | b'\'' | b'a' | b'd' | b'n' | b'r' | b't' | b'f' | b'v' => 2,
    b'u' => {
      if b.len() < 3 || b[2] != b'{' { return 0; }
      let mut j = 3;
      if b.len() >= 5 && b[3] == b'0' && b[4] == b'x' { j = 5; }
      let k = j;
      while j < b.len() && (b[j].is_ascii_digit() || (b'a'..=b'f').contains(&b[j])) { j += 1; }
      if j == k { return 0; }
      if j < b.len() && b[j] == b'}' { j + 1 } else { 0 }
    },
    _ => 0,
  }
}
fn string_literal(s: &str) -> usize {
  if !s.starts_with('\'') { return 0; }
  let mut i = 1;
  loop {
    let rest = &s[i..];
    let c = match rest.chars().next() { Some(c) => c, None => return 0 };
    if c == '\'' { return i + 1; }
    if c == '\\' { let n = escape_len(rest); if n == 0 { return 0; } i += n; continue; }
    if matches!(c, '\x07' | '\n' | '\r' | '\t' | '\x0c' | '\x0b') { return 0; }
    i += c.len_utf8();
  }
}
fn regular_literal(s: &str) -> usize {
  // /(\\/|[^/])+/  with backtracking preference
  if !s.starts_with('/') { return 0; }
  let b = s.as_bytes();
  let mut i = 1;
  let mut last_pair: Option<usize> = None; // end offset of the last \/ pair
  let mut items = 0;
  while i < b.len() {
    if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'/' { i += 2; last_pair = Some(i); items += 1; continue; }
    if b[i] == b'/' { break; }
    i += 1; items += 1;
  }
  if i < b.len() && items > 0 { return i + 1; }
  if i < b.len() { return 0; }
  last_pair.unwrap_or(0)
}
fn line_comment(s: &str) -> usize {
  if !s.starts_with("//") { return 0; }
  match s.find('\n') { Some(i) => i + 1, None => 0 }
}
fn block_comment(s: &str) -> usize {
  if !s.starts_with("/*") { return 0; }
  match s[2..].find("*/") { Some(i) => i + 4, None => 0 }
}

pub const V1_NAMES: [&str; 16] = ["_START", "_STOP", "RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION",
  "LPAREN", "RPAREN", "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE"];
pub const OLD_NAMES: [&str; 23] = ["_START", "_STOP", "LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF", "RULE_REF", "COLON", "OR", "SEMI",
  "STAR", "PLUS", "QUESTION", "DOT", "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON"];

/// the public constants of each lexer, by which its users name token types
macro_rules! consts { ($t:ty, $($n:ident)*) => { [$(<$t>::$n),*] } }
pub fn v1_consts() -> [usize; 16] {
  consts!(syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer, _START _STOP RULE_REF TOKEN_REF COLON SEMI OR EPSILON STAR PLUS QUESTION LPAREN RPAREN STRING_LITERAL
    REGULAR_LITERAL WHITE_SPACE)
}
pub fn old_consts() -> [usize; 23] {
  consts!(syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer, _START _STOP LINE_COMMENT BLOCK_COMMENT WS FRAGMENT TOKEN_REF RULE_REF COLON OR SEMI STAR PLUS QUESTION
    DOT NOT LPAREN RPAREN POUND STRING_LITERAL RANGE REGULAR_LITERAL EPSILON)
}

pub fn v1_lens(s: &str) -> Vec<usize> {
  vec![ident(s, |c| c.is_ascii_lowercase()), ident(s, |c| c.is_ascii_uppercase()), colon(s), lit(s, ";"), lit(s, "|"), epsilon(s), lit(s, "*"), lit(s, "+"),
    lit(s, "?"), lit(s, "("), lit(s, ")"), string_literal(s), regular_literal(s), run(s, &[' ', '\r', '\n', '\t', '\x0c'])]
}
pub fn old_lens(s: &str) -> Vec<usize> {
  vec![line_comment(s), block_comment(s), run(s, &[' ', '\t', '\r', '\n']), lit(s, "fragment"), ident(s, |c| c.is_ascii_uppercase()),
    ident(s, |c| c.is_ascii_lowercase()), colon(s), lit(s, "|"), lit(s, ";"), lit(s, "*"), lit(s, "+"), lit(s, "?"), lit(s, "."), lit(s, "~"), lit(s, "("),
    lit(s, ")"), lit(s, "#"), string_literal(s), lit(s, ".."), regular_literal(s), epsilon(s)]
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Which { Old, V1 }
impl Which {
  pub fn lens(self, s: &str) -> Vec<usize> { match self { Which::Old => old_lens(s), Which::V1 => v1_lens(s) } }
  pub fn names(self) -> &'static [&'static str] { match self { Which::Old => &OLD_NAMES, Which::V1 => &V1_NAMES } }
  pub fn consts(self) -> Vec<usize> { match self { Which::Old => old_consts().to_vec(), Which::V1 => v1_consts().to_vec() } }
  pub fn skipped(self, ty: usize) -> bool { match self { Which::Old => ty == 2 || ty == 3 || ty == 4, Which::V1 => ty == 15 } }
}

/// longest match, earliest definition
pub fn best(lens: &[usize]) -> Option<(usize, usize)> {
  let m = lens.iter().copied().max().unwrap_or(0);
  if m == 0 { return None; }
  let i = lens.iter().position(|l| *l == m).unwrap();
  Some((i + 2, m))
}

#[derive(Clone, Debug, PartialEq)]
pub struct MTok { pub ty: usize, pub name: String, pub start: usize, pub stop: usize, pub idx: usize }

pub struct ModelLex { pub toks: Vec<MTok>, pub consumed: usize }

pub fn model_lex_with(input: &str, names: &[&str], mut lens: impl FnMut(&str) -> Vec<usize>) -> ModelLex {
  let mut toks = Vec::new();
  let mut c = 0;
  while c < input.len() {
    match best(&lens(&input[c..])) {
      Some((ty, len)) => { toks.push(MTok { ty, name: names[ty].to_string(), start: c, stop: c + len, idx: toks.len() }); c += len; },
      None => break,
    }
  }
  ModelLex { toks, consumed: c }
}
pub fn model_lex(w: Which, input: &str) -> ModelLex { model_lex_with(input, w.names(), |s| w.lens(s)) }

/// (line, column in bytes) of a byte offset
pub fn line_col(input: &str, off: usize) -> (usize, usize) {
  let pre = &input.as_bytes()[..off];
  let line = pre.iter().filter(|b| **b == b'\n').count();
  let col = match pre.iter().rposition(|b| *b == b'\n') { Some(i) => off - i - 1, None => off };
  (line, col)
}

/// Does the token carry exactly the bookkeeping that its offsets imply?
pub fn token_consistent(input: &str, t: &Token, start: usize, stop: usize, idx: usize) -> Result<(), String> { token_consistent_with(input, t, start, stop, idx, |o| line_col(input, o)) }

/// positions by looking up the line table
pub struct Lines(Vec<usize>);
impl Lines {
  pub fn new(input: &str) -> Lines { Lines(std::iter::once(0).chain(input.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect()) }
  pub fn at(&self, off: usize) -> (usize, usize) { let k = self.0.partition_point(|x| *x <= off) - 1; (k, off - self.0[k]) }
}

pub fn token_consistent_with(input: &str, t: &Token, start: usize, stop: usize, idx: usize, line_col: impl Fn(usize) -> (usize, usize)) -> Result<(), String> {
  if t.char_start_index != start || t.char_stop_index != stop {
    return Err(format!("token {:?} has offsets {}..{}, expected {}..{}", t.text, t.char_start_index, t.char_stop_index, start, stop));
  }
  if input.get(start..stop) != Some(t.text.as_str()) { return Err(format!("token text {:?} is not the input slice {:?}", t.text, input.get(start..stop))); }
  let (l1, c1) = line_col(start);
  let (l2, c2) = line_col(stop.min(input.len()));
  if (t.start.line, t.start.char_position) != (l1, c1) { return Err(format!("token {:?} starts at {}:{}, expected {}:{}", t.text, t.start.line, t.start.char_position, l1, c1)); }
  if (t.stop.line, t.stop.char_position) != (l2, c2) { return Err(format!("token {:?} stops at {}:{}, expected {}:{}", t.text, t.stop.line, t.stop.char_position, l2, c2)); }
  if t.token_index != idx { return Err(format!("token {:?} has index {}, expected {}", t.text, t.token_index, idx)); }
  if t.channel != 0 { return Err(format!("token {:?} on channel {}", t.text, t.channel)); }
  Ok(())
}

// ------------------------------------------------------------------ input generation

pub const NOISE: &[char] = &['@', '$', '%', '&', '!', '-', '>', '<', '_', '0', '7', '[', ']', '{', '}', ',', '"', '`', '^', '\\', '\'', '/', '#', '~', '.',
  'a', 'Z', 'é', '中', '😀', 'Ω', '\u{a0}', '\u{85}', '\u{2028}', '٣', '\0', '\x07', '\x0b', '\x0c', '\r', 'ε', '\u{301}', '\u{feff}'];

pub fn any_char(s: &mut Source) -> char {
  match s.weighted(&[24, 12, 4, 1]) {
    0 => (b' ' + s.below(95) as u8) as char,
    1 => *s.pick(NOISE),
    3 => { let v: Vec<char> = s.dict_str().chars().collect(); if v.is_empty() { 'x' } else { *s.pick(&v) } },
    _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
  }
}
pub fn word(s: &mut Source, upper: bool, max: usize) -> String {
  let mut r = String::new();
  if s.chance(1, if s.has_fresh_strs() { 8 } else { 40 }) {
    if let Some(w) = s.dict_word(upper) {
      match s.usize_below(4) { 0 | 1 => return w.to_string(), 2 => r.push_str(w), _ => { let h = word(s, upper, 4); return format!("{}{}", h, w) } }
    }
  }
  let base = if upper && r.is_empty() { b'A' } else { b'a' };
  r.push((base + s.below(26) as u8) as char);
  let n = 1 + s.size(4, max);
  for _ in 0..n {
    let c = match s.weighted(&[6, 3, 2, 1]) { 0 => b'a' + s.below(26) as u8, 1 => b'A' + s.below(26) as u8, 2 => b'0' + s.below(10) as u8, _ => b'_' };
    r.push(c as char);
  }
  r
}
/// a name that differs little from w: in the case of a letter (not the first), by a character more, less or exchanged
pub fn near_name(s: &mut Source, w: &str) -> String {
  let mut c: Vec<char> = w.chars().collect();
  match s.weighted(&[4, 3, 2, 2, 2]) {
    0 => {
      let at: Vec<usize> = (1..c.len()).filter(|k| c[*k].is_ascii_alphabetic()).collect();
      if !at.is_empty() {
        let all = s.chance(1, 4); let k = *s.pick(&at);
        for j in at { if all || j == k { c[j] = if c[j].is_ascii_lowercase() { c[j].to_ascii_uppercase() } else { c[j].to_ascii_lowercase() } } }
      } else { c.push('_') }
    },
    1 => { let x = *s.pick(&['x', '_', '0', 'X', '1', 's']); c.push(x) },
    2 => { if c.len() > 2 { c.pop(); } else { c.push('0') } },
    3 => { let k = 1 + s.usize_below(c.len() - 1); let x = *s.pick(&['x', '_', '0', 'X', '1', 'l', 'I']); c[k] = x },
    _ => { let k = 1 + s.usize_below(c.len()); let x = *s.pick(&['x', '_', '0', 'X']); c.insert(k, x) },
  }
  c.into_iter().collect()
}
pub fn string_lit_text(s: &mut Source, max: usize) -> String {
  let mut r = String::from("'");
  let n = s.size(6, max);
  for _ in 0..n {
    match s.weighted(&[8, 3, 1]) {
      0 => {
        let c = any_char(s);
        if matches!(c, '\x07' | '\n' | '\r' | '\t' | '\x0c' | '\x0b' | '\\' | '\'') { r.push('x') } else { r.push(c) }
      },
      1 => { let e = *s.pick(&["\\\\", "\\'", "\\a", "\\d", "\\n", "\\r", "\\t", "\\f", "\\v"]); r.push_str(e) },
      _ => {
        r.push_str("\\u{");
        let p = *s.pick(&["", "0x", "0"]);
        r.push_str(p);
        let k = 1 + if s.chance(1, 12) { s.usize_below(40) } else { s.usize_below(5) };
        for _ in 0..k { let c = *s.pick(&['0', '1', '4', '9', 'a', 'f']); r.push(c) }
        r.push('}');
      },
    }
  }
  r.push('\'');
  r
}
pub fn regular_lit_text(s: &mut Source, max: usize) -> String {
  let mut r = String::from("/");
  let n = 1 + s.size(6, max);
  for _ in 0..n {
    match s.weighted(&[8, 2, 2, 1]) {
      0 => { let c = any_char(s); if c == '/' || c == '\\' { r.push('y') } else { r.push(c) } },
      1 => r.push_str("\\/"),
      2 => { r.push('\\'); let c = *s.pick(&['n', 'd', 'w', '*', '.', '(', '\\', 's']); r.push(c) },
      _ => { let c = *s.pick(&['\n', '\t', ' ', '\'', '*']); r.push(c) },
    }
  }
  if r.ends_with('\\') { r.push('z'); }
  r.push('/');
  r
}
pub fn blank(s: &mut Source, ff: bool) -> String {
  let n = 1 + s.size(3, 40);
  let mut r = String::new();
  for _ in 0..n {
    let k = s.weighted(&[6, 4, 2, 2, if ff { 1 } else { 0 }]);
    r.push_str([" ", "\n", "\t", "\r\n", "\x0c"][k]);
  }
  r
}

/// A text made of grammar-file fragments. Returns (text, noisy?)
pub fn lexer_input(s: &mut Source, w: Which) -> String {
  // now and then a text of up to 200 kB: one piece over and over
  if s.chance(1, 1500) {
    let r = lexer_piece(s, w);
    let r = match s.usize_below(6) { 0 => "aa ".to_string(), 1 => "\n;".to_string(), 2 => "ab".to_string(), 3 => format!("{}\n", r), _ => r };
    if r.is_empty() { return r; }
    let max = 1000usize << s.usize_below(8);
    let n = s.range(max / 2, max + max / 2) / r.len();
    let mut big = r.repeat(n.max(1));
    if s.chance(1, 2) { let e = lexer_piece(s, w); big.push_str(&e) }
    return big;
  }
  lexer_piece(s, w)
}
fn lexer_piece(s: &mut Source, w: Which) -> String {
  let r = plain_piece(s, w);
  if s.chance(1, if s.has_fresh_strs() { 6 } else { 60 }) {
    // a text the code under test mentions, anywhere
    let d = s.dict_str();
    let at: Vec<usize> = r.char_indices().map(|x| x.0).chain([r.len()]).collect();
    let k = match s.usize_below(4) { 0 => 0, 1 => r.len(), _ => *s.pick(&at) };
    return format!("{}{}{}", &r[..k], d, &r[k..]);
  }
  r
}
/// a proper lexeme with one character changed, left out, added, doubled or of the other case
fn near_miss(s: &mut Source) -> String {
  let t = match s.usize_below(6) {
    0 => word(s, false, 8), 1 => word(s, true, 8), 2 => string_lit_text(s, 6), 3 => regular_lit_text(s, 6),
    4 => s.pick(&["'\\u{1f}'", "'\\u{0xa9}'", "'\\u{0}'", "'\\n'", "'\\''", "'\\\\'", "/a\\/b/", "/\\d/"]).to_string(),
    _ => s.pick(&["::=", ":=", "->", "=>", "epsilon", "fragment", "ε", "/* a */", "// a\n", "/**/"]).to_string(),
  };
  let mut c: Vec<char> = t.chars().collect();
  let i = s.usize_below(c.len());
  match s.usize_below(6) {
    0 => { c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() } },
    1 => { let at: Vec<usize> = (0..c.len()).filter(|k| c[*k].is_ascii_alphabetic()).collect(); if !at.is_empty() { let k = *s.pick(&at); c[k] = c[k].to_ascii_uppercase() } },
    2 => { c.remove(i); },
    3 => { let x = any_char(s); c.insert(i, x) },
    4 => { let x = c[i]; c.insert(i, x) },
    _ => c[i] = any_char(s),
  }
  c.into_iter().collect()
}
fn plain_piece(s: &mut Source, w: Which) -> String {
  let noise = s.weighted(&[5, 3, 1]); // 0: none, 1: some near misses, 2: much
  let max = if s.chance(1, 12) { 400 } else { 24 };
  let n = s.size(8, max);
  let big = s.chance(1, 10);
  let fmax = if big { 600 } else { 12 };
  let mut r = String::new();
  for _ in 0..n {
    let k = s.weighted(&[10, 6, 6, 6, 8, 3, 3, 2, 3, 2]);
    match k {
      0 => r.push_str(&blank(s, w == Which::V1)),
      1 => { let t = word(s, false, fmax); r.push_str(&t) },
      2 => { let t = word(s, true, fmax); r.push_str(&t) },
      3 => { let t = *s.pick(&["::=", ":=", "->", "=>", ":", "="]); r.push_str(t) },
      4 => { let t = *s.pick(&["|", ";", "*", "+", "?", "(", ")"]); r.push_str(t) },
      5 => { let t = string_lit_text(s, fmax); r.push_str(&t) },
      6 => { let t = regular_lit_text(s, fmax); r.push_str(&t) },
      7 => { let t = *s.pick(&["epsilon", "ε", "fragment", "epsilons", "fragmentX", "epsi", "frag", "epsilon_", "Epsilon"]); r.push_str(t) },
      8 => if w == Which::Old {
        match s.usize_below(4) {
          0 => { r.push_str("//"); let m = s.size(6, fmax); for _ in 0..m { let c = any_char(s); if c != '\n' { r.push(c) } } r.push('\n'); },
          1 => { r.push_str("/*"); let m = s.size(6, fmax); for _ in 0..m { let c = any_char(s); r.push(c); if s.chance(1, 5) { r.push('\n') } if s.chance(1, 8) { r.push('*') } } r.push_str("*/"); },
          2 => { let t = *s.pick(&[".", "..", "~", "#", "..."]); r.push_str(t) },
          _ => { let t = *s.pick(&["/**/", "/***/", "//\n", "///\n", "/*/", "// \r\n"]); r.push_str(t) },
        }
      } else { r.push(' ') },
      _ => match noise {
        0 => r.push(' '),
        1 if s.chance(1, 2) => { let t = near_miss(s); r.push_str(&t) },
        1 => { let t = *s.pick(&["-", ">", "'", "/", "a", "Z", "//", "/*", "'ab", "'\\u{}'", "'\\x'", "'\t'", "/ab\\/", "::", ":::=", "=>>", "->-", "''", "'\\u{0x}'", "'\\u{0}'", "/\\/", "_a", "1a", "."]); r.push_str(t) },
        _ => { let m = 1 + s.size(3, 20); for _ in 0..m { let c = any_char(s); r.push(c) } },
      },
    }
  }
  r
}
