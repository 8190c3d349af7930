----------------------------- MODULE Trace_Hygiene -----------------------------
(***************************************************************************)
(* Recorded histories of spans inside a macro (C23).                       *)
(*   <<<<0>>, base>>            a new history                              *)
(*   <<operation, seen, equal>> the operation and every span read back for *)
(*                              it (empty: it panicked); equal: for some   *)
(*                              earlier spans j, <<j, does the library     *)
(*                              call them equal>>                          *)
(***************************************************************************)
EXTENDS Hygiene, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, base, spans, bad

Want(r) == Result(base, spans, r[1])
Verdict(r) ==
  LET w == Want(r) IN
  IF r[2] = <<>> THEN "panic"
  ELSE IF \E j \in 1 .. Len(r[2]) : Loc(r[2][j]) # Loc(w) THEN "another location"
  ELSE IF \E j \in 1 .. Len(r[2]) : Ctx(r[2][j]) # Ctx(w) THEN "another context"
  ELSE IF \E j \in 1 .. Len(r[3]) : r[3][j][2] # IF spans[r[3][j][1]] = w THEN 1 ELSE 0 THEN "equality"
  ELSE ""

Init == k = 1 /\ base = <<>> /\ spans = <<>> /\ bad = FALSE
Next ==
  /\ k <= Len(Trace) /\ k' = k + 1
  /\ LET r == Trace[k] IN
     IF r[1][1] = 0 THEN base' = r[2] /\ spans' = <<>> /\ bad' = FALSE
     ELSE IF bad \/ Verdict(r) # "" THEN bad' = TRUE /\ UNCHANGED <<base, spans>>
     ELSE spans' = Append(spans, Want(r)) /\ UNCHANGED <<base, bad>>
Conforms ==
  k <= Len(Trace) /\ ~bad =>
    LET r == Trace[k] IN
    r[1][1] # 0 => LET v == Verdict(r) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
================================================================================
