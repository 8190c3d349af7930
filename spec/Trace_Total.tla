------------------------------ MODULE Trace_Total ------------------------------
(***************************************************************************)
(* C02.  Records                                                           *)
(*  <<1, source, literal?, status>>                 a short text           *)
(*  <<2, family, n, operation, m, status, tokens, depth>>   a huge one     *)
(* status 1 value, 0 error, 2 panic.                                       *)
(***************************************************************************)
EXTENDS Totality, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

Verdict(r) ==
  IF r[1] = 1
  THEN IF r[4] = 2 THEN "panic"
       ELSE IF r[3] = 1 THEN IF (r[4] = 1) = LiteralFromStr(r[2]) THEN "" ELSE "wrong outcome for a literal"
       ELSE IF (r[4] = 1) = (Lex(r[2]).st = "ok") THEN "" ELSE "wrong outcome"
  ELSE IF r[6] = 2 THEN "panic on a large text"
       ELSE IF <<r[6], r[7], r[8]>> = (IF r[4] \in {8, 9} THEN Literally(r[2], r[3], r[4] = 9) ELSE After(r[4], Predict(r[2], r[3]), r[5])) THEN "" ELSE "wrong result for a large text"

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms == k <= Len(Trace) => LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
================================================================================
