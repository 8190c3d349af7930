------------------------------ MODULE Trace_Backend ------------------------------
(***************************************************************************)
(* Recorded calls of threads, from fresh processes.  Events:               *)
(*   <<0, avail>>          a new process; avail: 1 inside a macro (its     *)
(*                         thread is 1), 0 outside                         *)
(*   <<1, t, op>>          thread t calls                                  *)
(*   <<2, t, op, out>>     and returns; out of a use: 1 fallback,          *)
(*                         2 compiler, 3 anything else                     *)
(*   <<3>>                 some call never returned                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == 1 .. 8
In  == INSTANCE BackendRules WITH Threads <- T, Avail <- {1}
Out == INSTANCE BackendRules WITH Threads <- T, Avail <- {}
VARIABLES k, inside, g
Init == k = 1 /\ inside = 0 /\ g = In!Rules0
Complain(why) == PrintT(<<"MISMATCH", k, why>>)
Allowed(t, w) == w \in {1, 2} /\ IF inside = 1 THEN In!UseAllowed(g, t, w) ELSE Out!UseAllowed(g, t, w)
Next ==
  /\ k <= Len(Trace)
  /\ k' = k + 1
  /\ LET e == Trace[k] IN
     CASE e[1] = 0 -> inside' = e[2] /\ g' = In!Rules0
       [] e[1] = 1 -> UNCHANGED inside /\ g' = IF inside = 1 THEN In!Called(g, e[2], e[3]) ELSE Out!Called(g, e[2], e[3])
       [] e[1] = 2 -> /\ UNCHANGED inside
                      /\ g' = IF inside = 1 THEN In!Returned(g, e[2], e[3], e[4]) ELSE Out!Returned(g, e[2], e[3], e[4])
                      /\ IF e[3] = 1 /\ ~Allowed(e[2], e[4]) THEN Complain("wrong implementation") ELSE TRUE
       [] OTHER -> UNCHANGED <<inside, g>> /\ Complain("a call never returned")
==================================================================================
