-------------------------------- MODULE MC_Map --------------------------------
(***************************************************************************)
(* How one thread's source map realises SpanAlgebra: all texts parsed so   *)
(* far lie one after the other in one space of character offsets, a span   *)
(* is just two offsets, the text is found again by binary search, and byte *)
(* offsets are counted from the nearest one already known, in either       *)
(* direction.                                                              *)
(*                                                                         *)
(* A text is the sequence of the byte lengths of its characters.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxFiles, MaxText, Widths

VARIABLES files      \* [lo, hi, w, known]; files[1] is the empty text of the call site

Texts == UNION {[1 .. n -> Widths] : n \in 0 .. MaxText}
Dummy == [lo |-> 0, hi |-> 0, w |-> <<>>, known |-> {}]

RECURSIVE Sum(_, _)
Sum(w, n) == IF n = 0 THEN 0 ELSE w[n] + Sum(w, n - 1)

Max(S) == CHOOSE x \in S : \A y \in S : y[1] <= x[1]
Min(S) == CHOOSE x \in S : \A y \in S : x[1] <= y[1]

\* the byte offset of character c of f, the way it is computed: from the nearest known offset
ByteOf(f, c) ==
  LET below == {x \in f.known : x[1] <= c} \cup {<<0, 0>>}
      above == {x \in f.known : x[1] >= c}
      p == Max(below)
  IN IF p[1] = c THEN p[2]
     ELSE IF above # {} /\ Min(above)[1] - c < c - p[1]
          THEN LET n == Min(above) IN n[2] - (Sum(f.w, n[1]) - Sum(f.w, c))     \* counting back
          ELSE p[2] + (Sum(f.w, c) - Sum(f.w, p[1]))                            \* counting forward

\* which text a span lies in: binary search
Compare(f, lo, hi) == IF f.hi < lo THEN "less" ELSE IF f.lo > hi THEN "greater" ELSE "equal"
RECURSIVE Search(_, _, _, _)
Search(lo, hi, a, z) ==
  IF a > z THEN 0
  ELSE LET m == (a + z) \div 2 IN
       CASE Compare(files[m], lo, hi) = "equal" -> m
         [] Compare(files[m], lo, hi) = "less" -> Search(lo, hi, m + 1, z)
         [] OTHER -> Search(lo, hi, a, m - 1)
Find(lo, hi) == Search(lo, hi, 1, Len(files))

Init == files = <<Dummy>>

Add(w) == /\ Len(files) < MaxFiles
          /\ LET lo == files[Len(files)].hi + 1
             IN files' = Append(files, [lo |-> lo, hi |-> lo + Len(w), w |-> w, known |-> {}])

Ask(n, c) == files' = [files EXCEPT ![n].known = @ \cup {<<c, ByteOf(files[n], c)>>}]

Invalidate == files' = <<files[1]>>

Next == \/ \E w \in Texts : Add(w)
        \/ \E n \in 2 .. Len(files) : \E c \in 0 .. Len(files[n].w) : Ask(n, c)
        \/ Invalidate

\* --- what is checked ------------------------------------------------------
Within(n) == {<<l, h>> \in (files[n].lo .. files[n].hi) \X (files[n].lo .. files[n].hi) : l <= h}

\* every span, also an empty one at either end of its text, is found in its own text
Found == \A n \in 1 .. Len(files) : \A x \in Within(n) : Find(x[1], x[2]) = n

\* every byte offset is right, whatever is already known
Exact == \A n \in 2 .. Len(files) : \A c \in 0 .. Len(files[n].w) : ByteOf(files[n], c) = Sum(files[n].w, c)
KnownRight == \A n \in 1 .. Len(files) : \A x \in files[n].known : x[2] = Sum(files[n].w, x[1])

\* a span lies in the other's text exactly if it is the same text (what join relies on)
Apart == \A n, m \in 1 .. Len(files) : \A x \in Within(n) :
           (x[1] >= files[m].lo /\ x[2] <= files[m].hi) = (n = m)
===============================================================================
