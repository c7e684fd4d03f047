//! C01 C02 C03: the two grammar-file lexers.
use crate::engine::*;
use crate::lexmodel::*;
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;

fn lexer(w: Which, input: &str) -> Result<Box<dyn Lexer>, String> {
  imp("lexer construction", || match w {
    Which::Old => Box::new(syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer::new(input)) as Box<dyn Lexer>,
    Which::V1 => Box::new(syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer::new(input)),
  })
}
fn scan(l: &mut Box<dyn Lexer>) -> Result<Option<Token>, String> { imp("scan", || l.scan().ok()) }

fn setup(s: &mut Source, c: &mut Ctx) -> (Which, String) {
  let w = if s.chance(1, 2) { Which::Old } else { Which::V1 };
  let input = lexer_input(s, w);
  c.case(format!("{:?} {:?}", w, input));
  c.label(if w == Which::Old { "hand-written lexer" } else { "v1 lexer" });
  c.label_if(input.contains('\n'), "multi-line");
  c.label_if(input.chars().any(|x| x as u32 > 127), "non-ascii");
  c.label_if(input.len() > 500, "long (>500 bytes)");
  c.label_if(input.len() > 20000, "very long (>20 kB)");
  (w, input)
}

pub fn c01(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let (w, input) = setup(s, c);
  let mut l = lexer(w, &input)?;
  let lines = Lines::new(&input);
  let mut at = 0;
  let mut n = 0;
  loop {
    let t = match scan(&mut l)? { Some(t) => t, None => break };
    if t.token_type == 1 { break; }
    token_consistent_with(&input, &t, at, t.char_stop_index.max(at), n, |o| lines.at(o))?;
    if t.char_stop_index <= at { return Err(format!("empty token {}", t)); }
    match w.names().get(t.token_type) { Some(x) if *x == t.token_name => {}, other => return Err(format!("token {:?} of type {} is named {:?}, declared {:?}", t.text, t.token_type, t.token_name, other)) }
    at = t.char_stop_index;
    n += 1;
    if n > input.len() { return Err("more tokens than bytes".into()); }
  }
  c.nontrivial = n >= 3;
  c.label_if(at < input.len(), "stops early");
  Ok(())
}

pub fn c02(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let (w, input) = setup(s, c);
  let m = model_lex(w, &input);
  let consts = w.consts();
  if consts[..2] != [0, 1] { return Err(format!("the constants of the start and end symbols are {:?}", &consts[..2])); }
  let mut l = lexer(w, &input)?;
  for (i, mt) in m.toks.iter().enumerate() {
    let t = match scan(&mut l)? { Some(t) => t, None => return Err(format!("token {} ({} {:?}) is rejected", i, mt.name, &input[mt.start..mt.stop])) };
    if t.token_type != mt.ty || t.text.len() != mt.stop - mt.start || t.text != input[mt.start..mt.stop] {
      return Err(format!("token {} at byte {}: got type {} text {:?}, the definitions give type {} ({}) text {:?}", i, mt.start, t.token_type, t.text, mt.ty, mt.name, &input[mt.start..mt.stop]));
    }
    if t.token_type != consts[mt.ty] { return Err(format!("token {} ({:?}) has type {}, the lexer's constant {} is {}", i, t.text, t.token_type, mt.name, consts[mt.ty])); }
    let lens = w.lens(&input[mt.start..]);
    c.label_if(lens.iter().filter(|x| **x > 0).count() > 1, "competing definitions");
    c.label(&format!("{:?} {}", w, mt.name));
  }
  match scan(&mut l)? {
    Some(t) if !(w == Which::V1 && m.consumed == input.len() && t.token_type == 1) => return Err(format!("token {} recognised at byte {} where no definition matches", t, m.consumed)),
    _ => {},
  }
  c.nontrivial = m.toks.len() >= 3;
  c.label_if(m.consumed < input.len(), "stops early");
  Ok(())
}

pub fn c03(s: &mut Source, c: &mut Ctx) -> Result<(), String> {
  let (w, input) = setup(s, c);
  let m = model_lex(w, &input);
  let mut l = lexer(w, &input)?;
  let mut k = 0; // next model token
  let mut stopped = false;
  let full = m.consumed == input.len();
  let (el, ec) = line_col(&input, input.len());
  let check_stop = |t: &Token| -> Result<(), String> {
    if t.token_type != 1 { return Err(format!("after the last token came {}", t)); }
    if t.char_start_index != input.len() || t.char_stop_index != input.len() { return Err(format!("end marker at {}..{}, input ends at {}", t.char_start_index, t.char_stop_index, input.len())); }
    if (t.start.line, t.start.char_position, t.stop.line, t.stop.char_position) != (el, ec, el, ec) { return Err(format!("end marker at {} / {}, input ends at {}:{}", t.start, t.stop, el, ec)); }
    if t.channel != 0 || t.token_name != "_STOP" { return Err(format!("end marker {}", t)); }
    Ok(())
  };
  let same = |t: &Token, i: usize| -> Result<(), String> {
    let mt = &m.toks[i];
    if t.token_type != mt.ty || t.char_start_index != mt.start || t.char_stop_index != mt.stop { Err(format!("expected token {} ({} {:?}), got {}", i, mt.name, &input[mt.start..mt.stop], t)) } else { Ok(()) }
  };
  let nops = 1 + s.size(6, 60);
  let mut hist = String::new();
  for _ in 0..nops {
    let op = s.weighted(&[6, 2, 1]);
    match op {
      0 => {
        hist.push('s');
        match scan(&mut l)? {
          Some(t) => {
            if k < m.toks.len() { same(&t, k)?; k += 1; }
            else if w == Which::V1 && full && !stopped { check_stop(&t)?; stopped = true; }
            else { return Err(format!("after {} tokens{} scanning yields {}", k, if stopped { " and the end marker" } else { "" }, t)); }
          },
          None => {
            if k < m.toks.len() { return Err(format!("error instead of token {} ({})", k, m.toks[k].name)); }
            if w == Which::V1 && full && !stopped { return Err("input consumed but no end marker".into()); }
          },
        }
      },
      _ => {
        let ch = if op == 1 { 0 } else { 1 + s.usize_below(3) };
        hist.push_str(&format!("a{}", ch));
        cap_reset();
        let v = imp("scan_all_on_channel_tokens", || l.scan_all_on_channel_tokens(ch))?;
        let out = cap_take();
        if ch != 0 { if !v.is_empty() { return Err(format!("channel {} returned {} tokens, first {}", ch, v.len(), v[0])); } }
        else {
          let exp: Vec<usize> = (k..m.toks.len()).filter(|i| !w.skipped(m.toks[*i].ty)).collect();
          let stop = w == Which::V1 && full && !stopped;
          if v.len() != exp.len() + stop as usize { return Err(format!("collected {} tokens, expected {}{}", v.len(), exp.len(), if stop { " and the end marker" } else { "" })); }
          for (t, i) in v.iter().zip(exp.iter()) { same(t, *i)?; }
          if stop { check_stop(v.last().unwrap())?; }
          c.label("collects all");
        }
        if w == Which::V1 && full { stopped = true; }
        k = m.toks.len();
        if !full && !out.contains(&input[m.consumed..]) { return Err(format!("left-over input {:?} is not echoed (printed {:?})", &input[m.consumed..], out)); }
      },
    }
  }
  c.case(format!("{} history {}", c.case, hist));
  c.label_if(stopped, "reached the end marker");
  c.label_if(!full, "stops early");
  c.nontrivial = m.toks.len() >= 2 && nops >= 2;
  Ok(())
}
