----------------------------- MODULE Trace_Order -----------------------------
(***************************************************************************)
(* Pairs of identifiers, and identifiers against text (C10):               *)
(* <<1, spelling, spelling, eq, ne, cmp, partial_cmp, <<lt, le, gt, ge>>,  *)
(*   hashes equal, eq str, eq String, hash like its text>>                 *)
(* <<2, spelling, text, eq, ne>>     <<3, ...>> panic                      *)
(***************************************************************************)
EXTENDS Idents, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Bit(x) == IF x THEN 1 ELSE 0

Verdict(r) ==
  CASE r[1] = 3 -> "panic"
    [] r[1] = 2 -> IF r[4] = Bit(r[2] = r[3]) /\ r[5] = Bit(r[2] # r[3]) THEN "" ELSE "comparison with text"
    [] OTHER ->
       LET c == Compare(r[2], r[3])  e == Bit(c = 0) IN
       IF r[4] # e \/ r[5] # 1 - e THEN "equality"
       ELSE IF r[6] # c \/ r[7] # c \/ r[8] # <<Bit(c < 0), Bit(c <= 0), Bit(c > 0), Bit(c >= 0)>> THEN "ordering"
       ELSE IF e = 1 /\ r[9] # 1 THEN "equal identifiers hash differently"
       ELSE IF r[10] # e \/ r[11] # e THEN "comparison with text"
       ELSE IF r[12] # 1 THEN "hash differs from the hash of the spelling"
       ELSE ""

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
==============================================================================
