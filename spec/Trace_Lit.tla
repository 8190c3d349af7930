------------------------------ MODULE Trace_Lit ------------------------------
(***************************************************************************)
(* Records <<text, status, printed, tokens in a stream, status of parsing  *)
(* the text as a stream, its tokens, printed form of the literal made      *)
(* without validation (only if valid)>> of Literal::from_str (C06).        *)
(***************************************************************************)
EXTENDS Tokens, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

AsTokens(s) == IF s[1] = MINUS THEN <<PuTok(MINUS, FALSE), LiTok(Tail(s))>> ELSE <<LiTok(s)>>

Verdict(r) ==
  LET s == r[1]  ok == LiteralFromStr(s) IN
  CASE r[2] = 2 -> "panic"
    [] ok /\ r[2] = 0 -> "rejected although one literal"
    [] ~ok /\ r[2] = 1 -> "accepted although not exactly one literal"
    [] ~ok -> ""
    [] r[3] # s -> "does not print as written"
    [] r[7] # s -> "does not print as written when not validated"
    [] r[4] # AsTokens(s) -> "wrong tokens when put into a stream"
    [] r[5] # 1 \/ r[6] # AsTokens(s) -> "lexes differently inside a stream"
    [] OTHER -> ""

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
==============================================================================
