------------------------------ MODULE Trace_Lex ------------------------------
(***************************************************************************)
(* Validation of recorded parses: record k is <<source, status, tokens>>,  *)
(* status 1 parsed, 0 error, 2 panic.  Every record must be the behaviour  *)
(* of the lexer specification on that source.                              *)
(***************************************************************************)
EXTENDS Tokens, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE k

Verdict(r) ==
  LET s == r[1]  fin == Lex(s) IN
  CASE r[2] = 2 -> "panic"
    [] fin.st = "ok" /\ r[2] # 1 -> "rejected although well-formed"
    [] fin.st = "err" /\ r[2] # 0 -> "accepted although malformed"
    [] fin.st = "err" -> ""
    [] OTHER -> IF TokensMatch(s, ExpandAll(s, fin.out), r[3]) THEN "" ELSE "wrong tokens"

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1

Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
==============================================================================
