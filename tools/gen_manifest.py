#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TV = "TLA+ specification checked by TLC; executions of the real code, recorded from /repo's tree, are validated against it by TLC"
TRUST = " Trusts: the specification as the meaning of the property, the harness's projection of values to records, TLC."
CLAIMED = {
 "C01": ("Lexer.tla", "Every recorded parse (all strings over themed small alphabets, all fragment pairs, seeded random texts) must be the behaviour of the lexer specification."),
 "C02": ("Totality.tla, Lexer.tla, MC_Total", "Texts of families open^n mid close^n, n up to 90 000 (quick) and 750 000 (thorough), parsed, taken apart, mutated and released on a 192 KiB stack: outcome, token count and depth must be those the specification predicts (prediction checked by TLC against the lexer specification for small n); short and truncated texts must be accepted or rejected as specified, never panic."),
 "C03": ("Printer.tla + Lexer.tla, MC_Print", "TLC proves on a bounded model that the specified printer and lexer are inverse; recorded print/parse round trips of parsed and hand-built streams must be the specified ones."),
 "C04": ("Printer.tla", "The recorded text of every stream (parsed, and built exhaustively and at random in different ways) must be the one the printer specification gives for its tokens."),
 "C05": ("Lexer.tla comments, Source.tla", "Recorded parses of comment-heavy texts, with locations, must be those of the specification."),
 "C06": ("Literals.tla", "Recorded outcomes of parsing single literals must be those of the literal grammar."),
 "C07": ("Numbers.tla, Literals.tla", "Recorded spellings of literals built from values must denote exactly the value under the specification's reading of literals (arbitrary-precision arithmetic in TLA+)."),
 "C08": ("Literals.tla", "Recorded values read from literals must be those the specification decodes."),
 "C09": ("Idents.tla, XidTable", "Acceptance of every Unicode scalar value in first and later position, and of many strings, must be that of the specification."),
 "C10": ("Trace_Order", "Recorded comparisons, orderings and hash agreements of identifiers must be those of their spellings."),
 "C11": ("Lexer.tla + Source.tla", "Every recorded location answer must be the one the source specification computes for the token."),
 "C12": ("SpanAlgebra.tla, MC_Map", "TLC checks the table of sources on a bounded model; recorded histories of parsing, joining, slicing, locating and clearing must be histories of the specification."),
 "C13": ("SpanAlgebra.tla", "The same histories spread over several threads, each with its own table, must be histories of the specification per thread."),
 "C14": ("TokenStore.tla", "Recorded operation histories on many handles (with allocator accounting) must be histories of independent sequences."),
 "C15": ("TokenStore.tla, RcStore.tla", "Operation scripts generated by TLC from the bounded store model (one per transition) and random histories, executed on the real code, must be histories of sequences."),
 "C16": ("Lexer.tla + Source.tla", "Recorded error locations must be those the lexer specification gives."),
 "C17": ("Backend.tla, BackendRules.tla, MC_Backend, Trace_Mixed", "TLC explores every interleaving of uses, forces and unforces of 4 threads (unbounded histories, finite states); schedules generated from the model, one per transition, are replayed in fresh compiler processes through guarded scheduling points, and the recorded calls and returns must obey the rules; random histories inside a macro mix objects of both implementations."),
 "C18": ("TokenStore.tla, MC_Deferred, Trace_PmParse", "TLC checks the deferred-append representation on a bounded model; its scripts (one per transition) and random histories are executed inside a real procedural macro and must be histories of sequences, also seen through the compiler's own interface; malformed text must be an error and leave the compilation unharmed."),
 "C19": ("TokenStore.tla, Idents.tla", "Recorded token histories and the full sweep of punctuation characters must be those of the specification."),
 "C20": ("Trace_Config and the specifications of the other properties", "Identical programs run in eight build configurations; TLC requires all observations to agree, and those of one configuration to conform to the (configuration-free) specifications."),
 "C21": ("Trace_Inside, Lexer.tla + Source.tla", "Generated source files full of macro invocations are compiled with real procedural macros (stable, nightly, nightly with every exempt interface); what each invocation saw of its tokens' locations must be what the source specification computes for the file."),
 "C22": ("Debug.tla, TokenStore.tla", "The recorded {:?} and {:#?} texts of parsed and built streams, tokens and iterators must be those the debug specification gives for the token trees, with and without location tracking; inside a real procedural macro, histories of stream operations are recorded with what each stream, token and iterator prints and checked against the compiler's own rendering."),
 "C23": ("Hygiene.tla, MC_Hygiene", "TLC checks the laws of spans as pairs of location and context on a bounded model; its scripts (one per transition) and random histories are executed inside real procedural macros whose input comes through declarative macros, and every span read back, as the compiler itself describes it, must be the specified pair."),
}
checks = [dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
               technique="%s (%s)" % (TV, CLAIMED[i][0]), level="model_checking", level_note=CLAIMED[i][1] + TRUST) for i in props if i in CLAIMED]
na = [dict(property=i, reason="check under construction") for i in props if i not in CLAIMED]
hooks = dict(guard="cfg procmacro2_verif (rustc --cfg)", enable="RUSTFLAGS='--cfg procmacro2_verif' when building the harness for C17; all other checks build without it",
             source_commits=["eb2438a7cbf51813fa0cd2d20a343947a2efc076"])
m = dict(version=1, hooks=hooks, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
