----------------------------- MODULE Trace_Print -----------------------------
(***************************************************************************)
(* Records <<origin, tokens, texts, status, tokens of the text>>: a stream *)
(* that was parsed (origin 1) or assembled (origin 2), the distinct texts  *)
(* it printed as under several formatting options, and what parsing the    *)
(* text gave (status 1 parsed, 0 error, 2 panic).                          *)
(* Focus 3: the round trip (C03).  Focus 4: the canonical text (C04).      *)
(***************************************************************************)
EXTENDS Printer, Json, IOUtils, TLC
CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

RoundVerdict(r) ==
  IF r[1] = 1 \/ WellFormed(r[2])
  THEN CASE r[4] = 2 -> "panic when parsing the printed text"
         [] r[4] = 0 -> "printed text does not parse"
         [] r[5] # r[2] -> "printed text parses to other tokens"
         [] OTHER -> ""
  ELSE ""

TextVerdict(r) ==
  LET want == PrintText(r[2]) IN
  IF r[3][1] # want THEN "not the canonical text"
  ELSE IF Len(r[3]) # 1 THEN "text depends on formatting options or on how it is printed"
  ELSE ""

Verdict(r) == IF Focus = 3 THEN RoundVerdict(r) ELSE TextVerdict(r)

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
==============================================================================
