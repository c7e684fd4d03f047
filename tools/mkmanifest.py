#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json
T = {
 'C01': ('random inputs to both lexers; invariant over the token history (tiling, positions)', 'lexer input fuzzing, invariants recomputed from the input text'),
 'C02': ('differential: both lexers against a hand-written maximal-munch scanner', 'reference scanner written from the token definitions, no regex'),
 'C03': ('random inputs and call histories; invariant on the end marker, errors and channels', 'exactly the tokens before the first error, one end marker, nothing else'),
 'C04': ('generated token sets compiled with rustc and run on generated inputs against a reference lexer', 'own backtracking regex matcher + maximal munch as oracle; rustc, regex crate trusted'),
 'C05': ('random grammars through the symbol passes against a model of the numbering', 'model: order of first definition'),
 'C06': ('differential: bounded languages of EBNF and productions compared exhaustively, longer words by sampling + Earley', 'complete up to the word length stated per case in the evidence labels, sampled beyond'),
 'C07': ('round trip of the printed listing and closure invariants over random grammars', 'the listing is read back by an independent reader'),
 'C08': ('differential: random grammars against a relational closure', 'reference FIRST by graph reachability'),
 'C09': ('differential: random grammars against a relational closure', 'reference FOLLOW by graph reachability'),
 'C10': ('differential: table and printed conflicts against the definition of the LL(1) table', 'definition evaluated on reference FIRST/FOLLOW'),
 'C11': ('random LL(1) grammars, sampled sentences with their trees', 'the sampled derivation is the expected tree'),
 'C12': ('random LL(1) grammars, mutated sentences, reference predictive recogniser', 'silently accepted implies member of the language (Earley)'),
 'C13': ('random grammar texts in random layouts; round trip text -> tree', 'the generating model is the expected tree'),
 'C14': ('metamorphic/end-to-end runs of the whole tool chain and of the shipped program', 'composition of the references of the single steps'),
 'C15': ('round trip and mutation fuzzing of JSON documents', 'own JSON writer in random renderings; independent validity rule'),
 'C16': ('random trees, recording visitors, model of the traversal', 'expected call sequence computed from the tree'),
 'C17': ('random trees, recording listeners, model of the event sequence', 'expected event sequence computed from the tree'),
 'C18': ('random nodes, every query against a filter over the children', 'pointer identity with a direct filter'),
 'C19': ('random trees over a text, spans recomputed from the leaves', 'first/last covered token, concatenated texts'),
 'C20': ('random trees drawn; page tokenized as HTML and executed in node, tree read back', 'HTML tokenizer of the harness and node are trusted'),
 'C21': ('stateful: random histories of additions against a relational model', 'model: a partial bijection per kind of symbol'),
 'C22': ('random literals; patterns executed on the denoted text and near misses', 'denotation of literals computed independently; regex crate trusted'),
 'C23': ('random regular expressions; collected patterns against an own matcher', 'own backtracking matcher, used where the regex crate agrees on the reference spelling'),
 'C24': ('random constructs to every parser entry point, accessors against the model', 'the generating model is the expected tree'),
 'C26': ('fault injection while drawing (size limits at every prefix, missing directories, pipes)', 'the page drawn without a fault is the oracle; faults by RLIMIT_FSIZE and FIFOs inside the scratch directory'),
 'C27': ('metamorphic: repeated runs, reordered definitions and alternatives, renamed symbols', 'relation between runs; which rows may differ is stated in the property'),
 'C28': ('random job sets run alone, reordered, interleaved by a generated schedule and in threads', 'result alone is the oracle; thread schedules are those of the operating system'),
 'C29': ('random grammars with an injected dangling reference, and well-formed ones', 'the injected mistake is known; silence on standard output is observed'),
 'C25': ('round trip of printed trees and tokens', 'independent reader of the printed form'),
 'C30': ('mutation fuzzing of grammar texts through lexer and parser', 'independent scanner and recursive-descent parser for the grammar language'),
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
assert [p['id'] for p in props] == sorted(T)
m = {
 'version': 1,
 'setup_cmd': 'bash run.sh --build',
 'checks': [{
   'property': p['id'],
   'quick_cmd': f"bash run.sh {p['id']}",
   'thorough_cmd': f"bash run.sh {p['id']} thorough",
   'technique': 'property-based testing: ' + T[p['id']][0],
   'level': 'exploration',
   'level_note': 'Generated-input search, no proof: ' + T[p['id']][1] + '. Explored within the generator sizes stated in DESIGN.md; failures are shrunk and saved as replay files.',
 } for p in props],
 'not_applicable': [],
 'notes': 'No hooks in /repo: every property is observed through public items. /repo carries unguarded fix: commits only (see known_findings.json).',
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('/verif/MANIFEST.json', 'a').write('\n')
