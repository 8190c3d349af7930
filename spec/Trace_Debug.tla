------------------------------ MODULE Trace_Debug ------------------------------
(***************************************************************************)
(* C22.  Records <<located, how, kind, value, {:?}, {:#?}>>: kind 1 stream,*)
(* 2 iterator (value: the trees to come), 3 tree, 4 the token of a tree.   *)
(***************************************************************************)
EXTENDS Debug, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

Big == 1000000000
Shown(r, pretty) ==
  LET v == r[4]
      min == IF r[2] # 1 THEN 0 ELSE Least(IF r[3] \in {1, 2} THEN v ELSE <<v>>, Big)
  IN CASE r[3] \in {1, 2} -> StreamText(v, pretty, r[2], min)
       [] r[3] = 3 -> TreeText(v, pretty, r[2], min)
       [] OTHER -> TokenText(v, pretty, r[2], min)

Verdict(r) == IF (r[1] = 1) # Located THEN "recorded in the wrong configuration"
              ELSE IF r[5] # Shown(r, FALSE) THEN "{:?} does not show the tokens"
              ELSE IF r[6] # Shown(r, TRUE) THEN "{:#?} does not show the tokens"
              ELSE ""
Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms == k <= Len(Trace) => LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
================================================================================
