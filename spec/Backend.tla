-------------------------------- MODULE Backend --------------------------------
(***************************************************************************)
(* Which implementation newly made objects use.  A process has threads; on *)
(* some of them (Avail: the thread a procedural macro runs on) the         *)
(* compiler's implementation can be reached.  The mode flag `works`        *)
(* (0 unknown, 1 fallback, 2 compiler) is set by the first use, by force   *)
(* and by unforce.  Actions are the stretches between the points at which  *)
(* the verification build lets other threads run: a use that finds the     *)
(* flag unknown stops (p1), then either finds the first use done by        *)
(* another thread, or detects what is available and stops (p2) before      *)
(* publishing it; unforce stops in the same way (v2).                      *)
(***************************************************************************)
EXTENDS BackendRules

CONSTANTS Cas           \* TRUE: the first use publishes only if the flag is still unknown

VARIABLES works, once, pc, det, g, bad

vars == <<works, once, pc, det, g, bad>>

Init == /\ works = 0 /\ once = "new"
        /\ pc = [t \in Threads |-> "idle"]
        /\ det = [t \in Threads |-> 0]
        /\ g = Rules0 /\ bad = FALSE

Detect(t) == IF t \in Avail THEN 2 ELSE 1

\* the use of thread t ends, having read w; h: commitments before
Respond(t, w, h) ==
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ bad' = (bad \/ ~UseAllowed(h, t, w))
  /\ g' = Returned(h, t, 1, w)

UseStart(t) ==
  /\ pc[t] = "idle"
  /\ IF works # 0
     THEN Respond(t, works, Called(g, t, 1)) /\ UNCHANGED <<works, once, det>>
     ELSE /\ pc' = [pc EXCEPT ![t] = "p1"]
          /\ g' = Called(g, t, 1)
          /\ UNCHANGED <<works, once, det, bad>>

UseOnce(t) ==
  /\ pc[t] = "p1" /\ once # "busy"
  /\ IF once = "done"
     THEN Respond(t, works, g) /\ UNCHANGED <<works, once, det>>
     ELSE /\ once' = "busy"
          /\ det' = [det EXCEPT ![t] = Detect(t)]
          /\ pc' = [pc EXCEPT ![t] = "p2"]
          /\ UNCHANGED <<works, g, bad>>

UsePublish(t) ==
  /\ pc[t] = "p2"
  /\ works' = IF Cas /\ works # 0 THEN works ELSE det[t]
  /\ once' = "done"
  /\ det' = [det EXCEPT ![t] = 0]
  /\ Respond(t, works', g)

Force(t) ==
  /\ pc[t] = "idle"
  /\ works' = 1
  /\ g' = Returned(Called(g, t, 2), t, 2, 0)
  /\ UNCHANGED <<once, pc, det, bad>>

UnforceStart(t) ==
  /\ pc[t] = "idle"
  /\ det' = [det EXCEPT ![t] = Detect(t)]
  /\ pc' = [pc EXCEPT ![t] = "v2"]
  /\ g' = Called(g, t, 3)
  /\ UNCHANGED <<works, once, bad>>

UnforcePublish(t) ==
  /\ pc[t] = "v2"
  /\ works' = det[t]
  /\ det' = [det EXCEPT ![t] = 0]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ g' = Returned(g, t, 3, 0)
  /\ UNCHANGED <<once, bad>>

\* act: 1 use  2 force  3 unforce  4 go on from where it stopped
Step(t, act) ==
  \/ act = 1 /\ UseStart(t)
  \/ act = 2 /\ Force(t)
  \/ act = 3 /\ UnforceStart(t)
  \/ act = 4 /\ (UseOnce(t) \/ UsePublish(t) \/ UnforcePublish(t))

Next == \E t \in Threads, act \in 1 .. 4 : Step(t, act)

TypeOK == /\ works \in 0 .. 2 /\ once \in {"new", "busy", "done"}
          /\ \A t \in Threads : pc[t] \in {"idle", "p1", "p2", "v2"}

\* C17
Obeyed == ~bad

\* nothing is ever stuck: who waits waits for a thread that can go on
Live == \A t \in Threads : pc[t] = "p1" /\ once = "busy" => \E x \in Threads : pc[x] = "p2"

\* neither force nor unforce: the mode, once known, stays
Stable == [][works # 0 /\ g'.clean => works' = works]_vars
================================================================================
