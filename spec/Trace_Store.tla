----------------------------- MODULE Trace_Store -----------------------------
(***************************************************************************)
(* Histories of real streams, iterators and trees (C14, C15, C18, C19).    *)
(* Events:                                                                 *)
(*   <<<<0>>, number of slots, palette>>  a new history starts             *)
(*   <<op, status, answer, made, look, changes>>                           *)
(*     op: see TokenStore; status 1 done, 2 panic; made: <<value>> or <<>> *)
(*     look 0: nothing was observed after the operation                    *)
(*     look 1: changes lists <<slot, value>> of every slot whose           *)
(*             observation differs from the previous one                   *)
(*     look 2: changes lists every slot                                    *)
(***************************************************************************)
EXTENDS TokenStore, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, slots, pal, bad

vars == <<k, slots, pal, bad>>

Init == k = 1 /\ slots = <<>> /\ pal = <<>> /\ bad = FALSE

Made(e) == IF e[4] = <<>> THEN <<>> ELSE e[4][1]

\* what must be observed, given the state before and after
LookOk(e, old, new) ==
  CASE e[5] = 0 -> TRUE
    [] e[5] = 1 -> /\ \A c \in 1 .. Len(e[6]) : Recorded(new[e[6][c][1]], e[6][c][2])
                   /\ \A s \in 1 .. Len(new) :
                        new[s] = old[s] \/ \E c \in 1 .. Len(e[6]) : e[6][c][1] = s
    [] OTHER -> \A s \in 1 .. Len(new) : Recorded(new[s], e[6][s][2])

Reset(e) == /\ slots' = [j \in 1 .. e[2] |-> <<>>]
            /\ pal' = e[3]
            /\ bad' = FALSE

Complain(why) == PrintT(<<"MISMATCH", k, why>>)

Step(e) ==
  IF e[2] = 2
  THEN /\ Complain("panic") /\ bad' = TRUE /\ UNCHANGED <<slots, pal>>
  ELSE IF ~Interrupted(slots, e[1], Made(e))
  THEN /\ Complain("tokens invented or lost by an interrupted operation") /\ bad' = TRUE /\ UNCHANGED <<slots, pal>>
  ELSE LET new == Apply(slots, e[1], pal, Made(e)) IN
       /\ slots' = new
       /\ UNCHANGED pal
       /\ IF ~AnswerOk(slots, e[1], e[3]) THEN Complain(IF e[1][1] = 30 THEN "storage not released" ELSE "wrong answer") /\ bad' = TRUE
          ELSE IF ~LookOk(e, slots, new) THEN Complain("wrong value observed") /\ bad' = TRUE
          ELSE bad' = FALSE

Next ==
  /\ k <= Len(Trace)
  /\ k' = k + 1
  /\ LET e == Trace[k] IN
     IF e[1][1] = 0 THEN Reset(e)
     ELSE IF bad THEN UNCHANGED <<slots, pal, bad>>     \* already reported, wait for the next history
     ELSE Step(e)
==============================================================================
