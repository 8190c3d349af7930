------------------------------ MODULE BackendRules ------------------------------
(***************************************************************************)
(* What programs may rely on (C17), in terms of the calls threads make and *)
(* when they return:  1 use (make an object)   2 force   3 unforce.        *)
(* g: what the calls so far commit the library to.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Avail      \* Avail: threads on which the compiler can be reached

Rules0 == [ solid |-> FALSE,  \* a force has returned; no unforce was under way during it or has begun since
            freed |-> FALSE,  \* an unforce has returned on a thread of Avail; nothing undoing it was under way or has begun
            unf   |-> {},     \* threads whose unforce is under way
            frc   |-> {},     \* threads whose force is under way
            sure  |-> {},     \* those of them during whose call nothing undoing it has been under way
            seen  |-> [t \in Threads |-> <<FALSE, FALSE, FALSE>>],
            clean |-> TRUE,   \* neither force nor unforce so far
            pure  |-> TRUE,   \* only threads of Avail have called
            first |-> 0 ]     \* what a use returned while clean

Called(g, t, op) ==
  LET h == [g EXCEPT !.pure = @ /\ t \in Avail] IN
  CASE op = 1 -> [h EXCEPT !.seen[t] = <<g.solid, g.freed, h.pure>>]
    [] op = 2 -> [h EXCEPT !.frc = @ \union {t}, !.freed = FALSE, !.clean = FALSE,
                           !.sure = (@ \ g.unf) \union (IF g.unf = {} THEN {t} ELSE {})]
    [] op = 3 -> [h EXCEPT !.unf = @ \union {t}, !.solid = FALSE, !.clean = FALSE,
                           !.freed = @ /\ t \in Avail,
                           !.sure = (@ \ (g.frc \union (IF t \in Avail THEN {} ELSE g.unf)))
                                    \union (IF t \in Avail /\ g.frc = {} /\ g.unf \subseteq Avail THEN {t} ELSE {})]

\* w: 1 the object uses the fallback, 2 the compiler's implementation
UseAllowed(g, t, w) ==
  /\ w = 2 => Avail # {}
  /\ g.seen[t][1] /\ g.solid => w = 1
  /\ g.seen[t][2] /\ g.freed /\ t \in Avail => w = 2
  /\ g.clean /\ g.first # 0 => w = g.first
  /\ g.clean /\ g.seen[t][3] /\ g.pure /\ t \in Avail => w = 2

Returned(g, t, op, w) ==
  CASE op = 1 -> [g EXCEPT !.first = IF g.clean THEN w ELSE @]
    [] op = 2 -> [g EXCEPT !.frc = @ \ {t}, !.sure = @ \ {t}, !.solid = @ \/ t \in g.sure]
    [] op = 3 -> [g EXCEPT !.unf = @ \ {t}, !.sure = @ \ {t}, !.freed = @ \/ t \in g.sure]
=================================================================================
