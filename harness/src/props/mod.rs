pub mod ana;
pub mod draw;
pub mod genlex;
pub mod gram;
pub mod lex;
pub mod lit;
pub mod parse;
pub mod sys;
pub mod tree;
pub mod voc;
pub mod walk;

use crate::engine::Check;

pub struct Prop {
  pub id: &'static str,
  pub check: Check,
  /// number of cases of the quick tier
  pub quick: u64,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
}

const REF: &str = "the reference model in /verif/harness is a correct reading of the property";
const GEN: &str = "behaviour outside the sizes the generator reaches is not explored";

pub const PROPS: &[Prop] = &[
  Prop { id: "C01", check: lex::c01, quick: 150000, rule: "case = one input text (token soup, broken fragments, arbitrary Unicode) scanned by both grammar-file lexers; non-trivial when at least two tokens were scanned", assumptions: &[REF, GEN] },
  Prop { id: "C02", check: lex::c02, quick: 150000, rule: "case = one input text compared token by token with hand-written longest-match scanners; non-trivial when at least two tokens were scanned", assumptions: &[REF, GEN] },
  Prop { id: "C03", check: lex::c03, quick: 170000, rule: "case = one input text scanned past its end or past an error, and collected by channel; non-trivial when tokens were produced and something was skipped or left over", assumptions: &[REF, GEN] },
  Prop { id: "C04", check: genlex::c04, quick: 200, rule: "case = 1..8 random token-definition sets rendered through the template, compiled by rustc and run on about 35 inputs each; non-trivial when a set has two or more tokens", assumptions: &[REF, GEN, "rustc and the regex crate are trusted", "token names T_<n> (reserved for literals), the name Self and raw carriage returns in patterns are not generated"] },
  Prop { id: "C05", check: gram::c05, quick: 450000, rule: "case = one random grammar (with re-definitions) through the symbol passes; non-trivial when it has three or more definitions", assumptions: &[REF, GEN, "no string literals inside parser rules (listed finding)"] },
  Prop { id: "C06", check: gram::c06, quick: 20000, rule: "case = one random EBNF grammar; the languages of all rules are compared exhaustively up to a length bound and by sampled derivations beyond; non-trivial when a rule has a suffix or group and the bounded language is not empty", assumptions: &[REF, GEN, "no string literals inside parser rules (listed finding)"] },
  Prop { id: "C07", check: gram::c07, quick: 700000, rule: "case = one random grammar, its productions and its printed listing read back; non-trivial when it has three or more productions", assumptions: &[REF, GEN] },
  Prop { id: "C08", check: ana::c08, quick: 180000, rule: "case = one random plain grammar; FIRST sets compared with an independent fixpoint; non-trivial by nullable rules or recursion present", assumptions: &[REF, GEN] },
  Prop { id: "C09", check: ana::c09, quick: 150000, rule: "case = one random plain grammar; FOLLOW sets compared with an independent fixpoint; non-trivial by nullable rules or recursion present", assumptions: &[REF, GEN] },
  Prop { id: "C10", check: ana::c10, quick: 100000, rule: "case = one random plain grammar; predictive table and conflict notices compared with the definition; non-trivial when the table has at least two cells", assumptions: &[REF, GEN] },
  Prop { id: "C11", check: parse::c11, quick: 36000, rule: "case = one random LL(1) grammar and sampled sentences, parsed by both parsers; non-trivial when a sentence has two or more tokens", assumptions: &[REF, GEN, "grammars with '+' are not LL(1) after rewriting and are left out here"] },
  Prop { id: "C12", check: parse::c12, quick: 36000, rule: "case = one random LL(1) grammar and mutated or random token sequences; non-trivial when something was rejected", assumptions: &[REF, GEN] },
  Prop { id: "C13", check: parse::c13, quick: 8000, rule: "case = one random grammar written as text in a random layout, parsed by the v1 front end; non-trivial with two or more definitions", assumptions: &[REF, GEN] },
  Prop { id: "C14", check: parse::c14, quick: 2600, rule: "case = a random LL(1) grammar text taken end to end, or the own grammar in a random layout, or a run of the shipped program; non-trivial when a parsed sentence has two or more tokens", assumptions: &[REF, GEN] },
  Prop { id: "C15", check: tree::c15, quick: 700000, rule: "case = a random tree as JSON in a random rendering, or a mutation of one; non-trivial when the tree has three or more nodes or the input was mutated", assumptions: &[REF, GEN, "nesting up to 60 levels (the JSON reader's own recursion limit is 128)"] },
  Prop { id: "C16", check: walk::c16, quick: 400000, rule: "case = a random tree with random rule ids visited by recording visitors; non-trivial with four or more nodes", assumptions: &[REF, GEN] },
  Prop { id: "C17", check: walk::c17, quick: 2000000, rule: "case = a random tree with random rule ids walked by a recording listener; non-trivial with four or more nodes", assumptions: &[REF, GEN] },
  Prop { id: "C18", check: tree::c18, quick: 800000, rule: "case = a random node with mixed children queried in every way; non-trivial with three or more children", assumptions: &[REF, GEN] },
  Prop { id: "C19", check: tree::c19, quick: 2000000, rule: "case = a random tree laid over a source text, with empty nodes at edges; non-trivial with three or more leaves or an empty edge", assumptions: &[REF, GEN] },
  Prop { id: "C20", check: draw::c20, quick: 8000, rule: "case = a random tree and title drawn to a file, the page tokenized as HTML and its module script run in node; non-trivial with two or more leaves", assumptions: &[REF, GEN, "node's module evaluation stands for a browser's", "titles without carriage return and NUL"] },
  Prop { id: "C21", check: voc::c21, quick: 1500000, rule: "case = a random history of additions observed after every step against a relational model; non-trivial when at least two were accepted and one refused", assumptions: &[REF, GEN] },
  Prop { id: "C22", check: lit::c22, quick: 500000, rule: "case = a random grammar full of string literals; every pattern is run by the regex crate on texts and near misses; non-trivial with two or more distinct literals", assumptions: &[REF, GEN, "the meaning of the escape \\d is not documented and it is not generated", "two spellings of the same text are not mixed"] },
  Prop { id: "C23", check: lit::c23, quick: 80000, rule: "case = random regular expressions as token rules; collected patterns run by the regex crate against an own backtracking matcher; non-trivial when at least two inputs matched non-empty", assumptions: &[REF, GEN, "for flags, anchors and classes by name the regex crate, given the written expression, is the reference"] },
  Prop { id: "C24", check: parse::c24, quick: 7000, rule: "case = a random grammar text; entry points called at random constructs; non-trivial with five or more constructs", assumptions: &[REF, GEN] },
  Prop { id: "C25", check: tree::c25, quick: 1500000, rule: "case = a random tree or token printed and read back; non-trivial with three or more nodes", assumptions: &[REF, GEN] },
  Prop { id: "C26", check: sys::c26, quick: 15000, rule: "case = a random tree drawn under an injected fault (file size limit, missing directory, destination a directory, pipe that is slow or closed early); non-trivial when a fault is injected", assumptions: &[REF, GEN] },
  Prop { id: "C27", check: sys::c27, quick: 28000, rule: "case = one random grammar built and analysed repeatedly, with definitions and alternatives in another order, and with every name replaced; non-trivial with two or more rules and tokens", assumptions: &[REF, GEN] },
  Prop { id: "C28", check: sys::c28, quick: 4000, rule: "case = 2..6 random jobs (scanning, loading, building and parsing, drawing) run alone, again in another order, interleaved and in parallel threads; non-trivial with three or more jobs of different result", assumptions: &[REF, GEN, "thread schedules are those the operating system happens to choose"] },
  Prop { id: "C29", check: sys::c29, quick: 230000, rule: "case = a random grammar with one undefined reference or a missing definition, or a well-formed one; non-trivial with three or more references (broken) or two or more rules (well-formed)", assumptions: &[REF, GEN] },
  Prop { id: "C30", check: parse::c30, quick: 7000, rule: "case = a random grammar text damaged in a few places (characters, lexemes, truncation) or a random run of fragments, put through lexer and parser; non-trivial when the text has eight or more characters", assumptions: &[REF, GEN] },
];

pub fn find(id: &str) -> Option<&'static Prop> { PROPS.iter().find(|p| p.id == id) }

/// Listed findings: (key, still fails?) for a property
pub fn canaries(id: &str) -> Result<Vec<(String, bool)>, String> {
  use crate::ebnf::*;
  match id {
    "C04" => genlex::canaries(),
    "C06" => {
      let lit = Elem { atom: Atom::Lit("'x'".into()), suf: Suf::None, lazy: false };
      let g = Gram { defs: vec![Def::Rule("aa".into(), vec![Alt::Seq(vec![lit])])] };
      Ok(vec![("string literal inside a parser rule".into(), crate::pipeline::build(&tree_old(&g)).is_err())])
    },
    _ => Ok(vec![]),
  }
}
