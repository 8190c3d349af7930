----------------------------- MODULE SpanAlgebra -----------------------------
(***************************************************************************)
(* Spans as places: <<text, lo, hi>> with lo, hi 1-based character         *)
(* positions in the text, or <<0, 0, 0>> for the call site.  "text" is     *)
(* whatever identifies one parse (two parses of equal strings differ).     *)
(* Every operator is a function of its arguments alone: there is no hidden *)
(* state through which earlier parses or queries could matter.             *)
(***************************************************************************)
EXTENDS Source

Nowhere == <<0, 0, 0>>
IsNowhere(p) == p = Nowhere

\* smallest place covering both; <<>> when there is none
Join(p, q) ==
  IF p[1] # q[1] THEN <<>>
  ELSE << <<p[1], IF p[2] < q[2] THEN p[2] ELSE q[2], IF p[3] > q[3] THEN p[3] ELSE q[3]>> >>

\* bounds: <<kind, value>>, kind 0 unbounded, 1 included, 2 excluded; value -1 stands for usize::MAX
BOUND_MAX == 2000000000
Val(b) == IF b[2] = -1 THEN BOUND_MAX ELSE b[2]
FirstByte(b) == IF b[1] = 0 THEN 0 ELSE IF b[1] = 1 THEN Val(b) ELSE Val(b) + 1
EndByte(b, n) == IF b[1] = 0 THEN n ELSE IF b[1] = 1 THEN Val(b) + 1 ELSE Val(b)

\* the place that is bytes lo .. hi-1 of place p of text s; <<>> if it is not inside p.
\* Spans consist of whole characters: a range that splits one is not a span either.
SubPlace(s, p, from, to) ==
  LET tx == IF IsNowhere(p) THEN <<>> ELSE SubSeq(s, p[2], p[3] - 1)
      at == Positions(tx, 1, Len(tx) + 1, <<0, 1, 0>>)
      b  == [j \in 1 .. Len(at) |-> at[j][1]]
      n  == b[Len(b)]
      lo == FirstByte(from)
      hi == EndByte(to, n)
      Pos(x) == {j \in 1 .. Len(b) : b[j] = x}
  IN IF lo > hi \/ hi > n \/ Pos(lo) = {} \/ Pos(hi) = {} THEN <<>>
     ELSE IF IsNowhere(p) THEN <<Nowhere>>
     ELSE LET a == CHOOSE j \in Pos(lo) : TRUE
              z == CHOOSE j \in Pos(hi) : TRUE
          IN << <<p[1], p[2] + a - 1, p[2] + z - 1>> >>

\* what a query of place p of text s answers
Answer(s, p) == IF IsNowhere(p) THEN CallSite
                ELSE Describe(Tab(s), p[2], p[3])

\* a doc comment is lexed as one item but is several tokens: of which item is each flat token a part,
\* and is it the bracketed group of a doc comment
RECURSIVE OwnersBetween(_, _, _)
OwnersBetween(out, a, b) ==
  IF a > b THEN <<>>
  ELSE IF a < b THEN LET m == (a + b) \div 2 IN OwnersBetween(out, a, m) \o OwnersBetween(out, m + 1, b)
  ELSE IF out[a].k # "doc" THEN << <<a, FALSE>> >>
  ELSE (IF out[a].inner THEN << <<a, FALSE>>, <<a, FALSE>> >> ELSE << <<a, FALSE>> >>)
       \o << <<a, TRUE>>, <<a, FALSE>>, <<a, FALSE>>, <<a, FALSE>>, <<a, TRUE>> >>
Owners(out) == OwnersBetween(out, 1, Len(out))

\* places of part 0 (whole), 1 (opening), 2 (closing) of the token with owner o.
\* (Not for line doc comments that end in CRLF, see Source.)
PartPlace(id, out, o, part) ==
  LET x == out[o[1]]
      e == IF x.k = "op" THEN GroupEnd(out, o[1]) ELSE x.hi
  IN IF part = 0 \/ (x.k = "doc" /\ ~o[2]) THEN <<id, x.lo, e>>
     ELSE IF part = 1 THEN <<id, x.lo, x.lo + 1>>
     ELSE <<id, e - 1, e>>
===============================================================================
