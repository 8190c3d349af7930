------------------------------ MODULE Trace_Span ------------------------------
(***************************************************************************)
(* Records <<source, literal?, status, tokens, locations>>.                *)
(* Focus 5: comments and doc comments, tokens and locations (C05)          *)
(* Focus 11: locations of all tokens (C11); Focus 16: of errors (C16)      *)
(***************************************************************************)
EXTENDS Source, Json, IOUtils, TLC
CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

TokVerdict(r, fin) ==
  CASE r[3] = 2 -> "panic while parsing"
    [] fin.st = "ok" /\ r[3] = 0 -> "rejected although well-formed"
    [] fin.st = "err" /\ r[3] = 1 -> "accepted although malformed"
    [] fin.st = "ok" /\ ~TokensMatch(r[1], ExpandAll(r[1], fin.out), r[4]) -> "wrong tokens"
    [] OTHER -> ""

OkVerdict(r, fin) ==
  IF r[3] = 3 THEN "panic while asking for locations"
  ELSE IF r[3] # 1 THEN ""
  ELSE IF PlacesOk(WhereAll(Tab(r[1]), fin.out), r[5]) THEN "" ELSE "wrong location"

ErrVerdict(r, fin) ==
  IF r[3] = 3 THEN "panic while asking for the location of an error"
  ELSE IF r[3] # 0 THEN ""
  ELSE IF r[5] = <<<<<<Describe(Tab(r[1]), fin.at, fin.at)>>>>>> THEN "" ELSE "error points elsewhere"

LitVerdict(r) ==
  IF Focus = 11
  THEN CASE r[3] = 1 /\ LiteralFromStr(r[1]) ->
              IF r[5] = <<<<<<Describe(Tab(r[1]), 1, Len(r[1]) + 1)>>>>>> THEN "" ELSE "wrong location of a literal"
         [] r[3] = 3 /\ LiteralFromStr(r[1]) -> "panic while asking for the location of a literal"
         [] OTHER -> ""
  ELSE IF Focus = 16
  THEN CASE r[3] = 0 -> IF r[5] = <<<<<<CallSite>>>>>> THEN "" ELSE "literal error not at the call site"
         [] r[3] = 3 /\ ~LiteralFromStr(r[1]) -> "panic while asking for the location of an error"
         [] OTHER -> ""
  ELSE ""

Verdict(r) ==
  IF r[2] = 1 THEN LitVerdict(r)
  ELSE LET fin == Lex(r[1])
           tv == TokVerdict(r, fin)
       IN CASE Focus = 5 -> IF tv # "" THEN tv
                            ELSE IF fin.st = "ok" THEN OkVerdict(r, fin) ELSE ""
            [] tv # "" -> ""              \* another property's concern
            [] Focus = 11 -> IF fin.st = "ok" THEN OkVerdict(r, fin) ELSE ""
            [] Focus = 16 -> IF fin.st = "err" THEN ErrVerdict(r, fin) ELSE ""

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
===============================================================================
