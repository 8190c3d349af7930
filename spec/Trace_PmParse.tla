------------------------------ MODULE Trace_PmParse ------------------------------
(***************************************************************************)
(* Text parsed inside a procedural macro (C18).  Records                   *)
(*   <<kind, text, status, tokens, status', tokens'>>                      *)
(* kind 0 stream, 1 literal: the library's answer and the answer of the    *)
(* compiler's own parser (1 parsed, 0 error, 2 panic).  Malformed text is  *)
(* an error; of everything else the compiler decides.                      *)
(* kind 2: a stream of the fallback and what the compiler sees of it.      *)
(***************************************************************************)
EXTENDS Tokens, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
WellFormed(kind, s) == IF kind = 1 THEN LiteralFromStr(s) ELSE Lex(s).st = "ok"
Verdict(r) ==
  CASE r[1] = 2 -> IF r[5] = 1 /\ r[4] = r[6] THEN "" ELSE "the compiler does not get the tokens"
    [] r[3] = 2 -> "panic"
    [] ~WellFormed(r[1], r[2]) -> IF r[3] = 0 THEN "" ELSE "accepted although malformed"
    [] r[5] = 1 -> IF r[3] = 1 /\ r[4] = r[6] THEN "" ELSE "not what the compiler makes of it"
    [] OTHER -> IF r[3] = 0 THEN "" ELSE "accepted although the compiler rejects it"
Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
===================================================================================
