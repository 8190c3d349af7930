------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* The counted-reference store refines the store of independent values     *)
(* (TokenStore): every operation, from every state of sharing, has the     *)
(* effect on the values that TokenStore gives it, counts are exact and     *)
(* nothing unreachable stays allocated.                                    *)
(*                                                                         *)
(* With Emit = TRUE each transition is printed as a script of operations,  *)
(* which the harness executes on the real streams.                         *)
(***************************************************************************)
EXTENDS RcStore, FiniteSets, TLC, Json

CONSTANTS N,          \* slots
          MaxNodes, MaxLen, MaxDepth, MaxOps,
          Emit,
          KeepHist    \* histories only matter when scripts are printed

TS == INSTANCE TokenStore WITH Narrow <- TRUE

VARIABLES slots, heap, abs, hist
vars == <<slots, heap, abs, hist>>
View == <<slots, heap>>

Slots == 1 .. N
CS == <<0, 0, 0>>
Pal == <<CS>>

Init == /\ slots = [s \in Slots |-> <<>>]
        /\ heap = [n \in 1 .. MaxNodes |-> Free]
        /\ abs = [s \in Slots |-> <<>>]
        /\ hist = <<>>

\* what the shared representation stands for
RECURSIVE DerefSeq(_, _, _), DerefItem(_, _)
DerefItem(h, x) == IF IsRef(x) THEN <<4, CS, x[2], DerefSeq(h, h[x[3]].items, 1), CS, CS>> ELSE x
DerefSeq(h, its, i) == IF i > Len(its) THEN <<>> ELSE <<DerefItem(h, its[i])>> \o DerefSeq(h, its, i + 1)
Deref(h, v) == IF v = <<>> THEN <<>>
               ELSE IF v[1] = 1 THEN <<1, DerefSeq(h, h[v[2]].items, 1)>>
               ELSE IF v[1] = 2 THEN <<2, DerefSeq(h, v[2], 1)>>
               ELSE <<3, DerefItem(h, v[2])>>

RECURSIVE Depth(_, _)
Depth(h, its) == IF its = <<>> THEN 0
                 ELSE LET here == IF IsRef(its[1]) THEN 1 + Depth(h, h[its[1][3]].items) ELSE 0
                          rest == Depth(h, Tail(its))
                      IN IF here > rest THEN here ELSE rest

IsS(s) == slots[s] # <<>> /\ slots[s][1] = 1
IsI(s) == slots[s] # <<>> /\ slots[s][1] = 2
IsT(s) == slots[s] # <<>> /\ slots[s][1] = 3
IsG(s) == IsT(s) /\ IsRef(slots[s][2])
Items(s) == heap[slots[s][2]].items

\* operation o leaves heap h and slots new
Do(o, h, new) ==
  /\ slots' = new
  /\ heap' = h
  /\ abs' = TS!Apply(abs, o, Pal, <<>>)
  /\ hist' = IF KeepHist THEN Append(hist, o) ELSE hist
  /\ IF Emit THEN PrintT("SCRIPT " \o ToJson(Append(hist, o))) ELSE TRUE

\* slot d gets v; what it held before is given up after the new value exists
Put(o, h, d, v) == Do(o, Release(h, SlotRefs(slots[d])), [slots EXCEPT ![d] = v])

Fits(its) == Len(its) <= MaxLen /\ Depth(heap, its) <= MaxDepth

New(d) == /\ HasFree(heap)
          /\ LET al == Alloc(heap, <<>>) IN Put(<<1, d>>, al.h, d, <<1, al.n>>)

Leaf(d, c) == Put(<<21, d, 1, c>>, heap, d, <<3, <<1, CS, <<c>>>>>>)

Clone(d, s) == /\ d # s /\ slots[s] # <<>>
               /\ Put(<<3, d, s>>, CloneRefs(heap, slots[s]), d, slots[s])

Drop(d) == slots[d] # <<>> /\ Put(<<4, d>>, heap, d, <<>>)

ExtendTree(d, s) ==
  /\ IsS(d) /\ IsT(s) /\ Fits(Items(d) \o <<slots[s][2]>>)
  /\ HasFree(heap)
  /\ LET r == Push(CloneRefs(heap, slots[s]), slots[d][2], <<slots[s][2]>>)
     IN Do(<<5, d, s>>, r.h, [slots EXCEPT ![d] = <<1, r.n>>])

\* by a stream that is consumed
ExtendMove(d, s) ==
  /\ d # s /\ IsS(d) /\ IsS(s) /\ Fits(Items(d) \o Items(s))
  /\ HasFree(heap)
  /\ LET m == MakeMut(heap, slots[d][2])        \* self.inner.make_mut() comes first
         t == TakeInner(m.h, slots[s][2])
     IN Do(<<7, d, s>>, [t.h EXCEPT ![m.n].items = @ \o t.items], [slots EXCEPT ![d] = <<1, m.n>>, ![s] = <<>>])

\* by a clone of a stream, possibly of itself
ExtendClone(d, s) ==
  /\ IsS(d) /\ IsS(s) /\ Fits(Items(d) \o Items(s))
  /\ HasFree(heap)
  /\ LET c == CloneRefs(heap, slots[s])
         m == MakeMut(c, slots[d][2])
         t == TakeInner(m.h, slots[s][2])
     IN Do(<<8, d, s>>, [t.h EXCEPT ![m.n].items = @ \o t.items], [slots EXCEPT ![d] = <<1, m.n>>])

FromTree(d, s) ==
  /\ IsT(s) /\ HasFree(heap) /\ Depth(heap, <<slots[s][2]>>) <= MaxDepth
  /\ LET al == Alloc(CloneRefs(heap, slots[s]), <<slots[s][2]>>) IN Put(<<10, d, s>>, al.h, d, <<1, al.n>>)

\* collect two consumed streams
Collect(d, s, t) ==
  /\ s # t /\ IsS(s) /\ IsS(t) /\ Fits(Items(s) \o Items(t))
  /\ LET a == TakeInner(heap, slots[s][2])
         b == TakeInner(a.h, slots[t][2])
         other == [slots EXCEPT ![s] = <<>>, ![t] = <<>>]
     IN /\ HasFree(b.h)
        /\ LET al == Alloc(b.h, a.items \o b.items)
           IN Do(<<13, d, s, t>>, Release(al.h, SlotRefs(other[d])), [other EXCEPT ![d] = <<1, al.n>>])

IntoIter(d) == /\ IsS(d)
               /\ LET t == TakeInner(heap, slots[d][2]) IN Do(<<14, d>>, t.h, [slots EXCEPT ![d] = <<2, t.items>>])

NextTree(d, s) ==
  /\ d # s /\ IsI(s)
  /\ IF slots[s][2] = <<>> THEN Put(<<15, d, s>>, heap, d, <<>>)
     ELSE Do(<<15, d, s>>, Release(heap, SlotRefs(slots[d])),
             [slots EXCEPT ![s] = <<2, Tail(slots[s][2])>>, ![d] = <<3, slots[s][2][1]>>])

CollectIter(d) == /\ IsI(d) /\ HasFree(heap)
                  /\ LET al == Alloc(heap, slots[d][2]) IN Do(<<16, d>>, al.h, [slots EXCEPT ![d] = <<1, al.n>>])

GroupMove(d, s) ==
  /\ IsS(s) /\ Depth(heap, Items(s)) < MaxDepth
  /\ LET other == [slots EXCEPT ![s] = <<>>]
     IN Do(<<17, d, s, 1>>, Release(heap, SlotRefs(other[d])), [other EXCEPT ![d] = <<3, <<4, 1, slots[s][2]>>>>])

GroupClone(d, s) ==
  /\ IsS(s) /\ Depth(heap, Items(s)) < MaxDepth
  /\ Put(<<18, d, s, 3>>, CloneRefs(heap, slots[s]), d, <<3, <<4, 3, slots[s][2]>>>>)

Content(d, s) ==
  /\ IsG(s)
  /\ LET n == slots[s][2][3] IN Put(<<19, d, s>>, Inc(heap, <<n>>, 1), d, <<1, n>>)

ExtendIter(d, s) ==
  /\ IsS(d) /\ IsI(s) /\ Fits(Items(d) \o slots[s][2]) /\ HasFree(heap)
  /\ LET r == Push(heap, slots[d][2], slots[s][2])
     IN Do(<<26, d, s>>, r.h, [slots EXCEPT ![d] = <<1, r.n>>, ![s] = <<>>])

\* slots are interchangeable: they come into use in order
RECURSIVE Used(_)
Used(q) == IF q = <<>> THEN 0 ELSE LET r == Used(Tail(q)) IN IF q[1][2] > r THEN q[1][2] ELSE r

OpOn(d) ==
  \/ New(d) \/ Leaf(d, 97) \/ Drop(d) \/ IntoIter(d) \/ CollectIter(d)
  \/ \E s \in Slots :
       \/ Clone(d, s) \/ ExtendTree(d, s) \/ ExtendMove(d, s) \/ ExtendClone(d, s) \/ FromTree(d, s)
       \/ NextTree(d, s) \/ GroupMove(d, s) \/ GroupClone(d, s) \/ Content(d, s) \/ ExtendIter(d, s)
       \/ \E t \in Slots : Collect(d, s, t)

Next ==
  /\ Len(hist) < MaxOps
  /\ \E d \in Slots :
       (Emit => d <= 1 + Used(hist)) /\ OpOn(d)

Spec == Init /\ [][Next]_vars

\* --- what is checked ---------------------------------------------------
Refines == \A s \in Slots : Deref(heap, slots[s]) = abs[s]

\* every reference in slots and live nodes
RECURSIVE SumSlots(_), SumNodes(_)
SumSlots(s) == IF s > N THEN <<>> ELSE SlotRefs(slots[s]) \o SumSlots(s + 1)
SumNodes(n) == IF n > MaxNodes THEN <<>> ELSE Refs(heap[n].items, 1) \o SumNodes(n + 1)
AllRefs == SumSlots(1) \o SumNodes(1)
Count(q, n) == Cardinality({j \in 1 .. Len(q) : q[j] = n})
CountsExact == LET q == AllRefs IN \A n \in 1 .. MaxNodes : heap[n].rc = Count(q, n)

RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {{Refs(heap[n].items, 1)[j] : j \in 1 .. Len(Refs(heap[n].items, 1))} : n \in S}
            IN IF T = S THEN S ELSE Reach(T)
NothingLost == LET q == SumSlots(1)
                   live == {n \in 1 .. MaxNodes : heap[n].rc > 0}
               IN live = Reach({q[j] : j \in 1 .. Len(q)})
=============================================================================
