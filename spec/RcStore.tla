------------------------------- MODULE RcStore -------------------------------
(***************************************************************************)
(* How the fallback implementation realises independent values: streams    *)
(* are counted references to shared vectors of trees, copied when they are *)
(* about to be changed while shared, and released without recursion.       *)
(*                                                                         *)
(* heap: node -> [rc, items]; rc = 0: free.                                *)
(* items: <<1, span, text>>, ... leaves; <<4, delimiter, node>> groups.    *)
(* slots: <<>> | <<1, node>> | <<2, items>> | <<3, item>>                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Free == [rc |-> 0, items |-> <<>>]
IsRef(x) == x[1] = 4

\* the references held by a sequence of items
RECURSIVE Refs(_, _)
Refs(its, i) == IF i > Len(its) THEN <<>>
                ELSE (IF IsRef(its[i]) THEN <<its[i][3]>> ELSE <<>>) \o Refs(its, i + 1)

RECURSIVE Inc(_, _, _)
Inc(h, ns, i) == IF i > Len(ns) THEN h ELSE Inc([h EXCEPT ![ns[i]].rc = @ + 1], ns, i + 1)

\* gives up the references ns: a work list, not recursion over the nesting
RECURSIVE Release(_, _)
Release(h, ns) ==
  IF ns = <<>> THEN h
  ELSE LET n == ns[1] IN
       IF h[n].rc > 1 THEN Release([h EXCEPT ![n].rc = @ - 1], Tail(ns))
       ELSE Release([h EXCEPT ![n] = Free], Refs(h[n].items, 1) \o Tail(ns))

FreeNode(h) == CHOOSE n \in DOMAIN h : h[n].rc = 0 /\ \A m \in DOMAIN h : h[m].rc = 0 => n <= m
HasFree(h) == \E n \in DOMAIN h : h[n].rc = 0

\* a fresh node with these items, whose references it takes over
Alloc(h, its) == LET n == FreeNode(h) IN [h |-> [h EXCEPT ![n] = [rc |-> 1, items |-> its]], n |-> n]

\* the items of stream n, its reference given up: moved out when unshared, else copied
TakeInner(h, n) ==
  IF h[n].rc = 1 THEN [h |-> [h EXCEPT ![n] = Free], items |-> h[n].items]
  ELSE [h |-> Inc([h EXCEPT ![n].rc = @ - 1], Refs(h[n].items, 1), 1), items |-> h[n].items]

\* a node that only this handle refers to, with the same items
MakeMut(h, n) ==
  IF h[n].rc = 1 THEN [h |-> h, n |-> n]
  ELSE Alloc(Inc([h EXCEPT ![n].rc = @ - 1], Refs(h[n].items, 1), 1), h[n].items)

\* appends items (whose references the node takes over) to stream n
Push(h, n, its) == LET m == MakeMut(h, n) IN [h |-> [m.h EXCEPT ![m.n].items = @ \o its], n |-> m.n]

SlotRefs(v) == IF v = <<>> THEN <<>>
               ELSE IF v[1] = 1 THEN <<v[2]>>
               ELSE IF v[1] = 2 THEN Refs(v[2], 1)
               ELSE Refs(<<v[2]>>, 1)

\* the value v again, independent: counts only
CloneRefs(h, v) == Inc(h, SlotRefs(v), 1)
===============================================================================
