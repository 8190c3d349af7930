----------------------------- MODULE Trace_Inside -----------------------------
(***************************************************************************)
(* C21: where the input tokens of a procedural macro are.  The first record*)
(* is <<text>>, the source file being compiled; each other one is what one *)
(* use `pmh::at! ( number ... )` in it saw:                                *)
(*   <<number, tokens, locations, <<call site, mixed site>>, pairs, parts, *)
(*     names>>                                                             *)
(* locations as in Trace_Span; pairs: <<x, y, join, resolved, located, same, x the same>> of *)
(* the flat tokens x and y; parts: <<x, lo, hi, sub>> of the literal x;    *)
(* names: file and local file are the compiled file, everywhere.           *)
(* <<number>>: a panic.                                                    *)
(* Exact: the compiler tells byte ranges, joins spans and divides them.    *)
(***************************************************************************)
EXTENDS Source, Json, IOUtils, TLC, FiniteSets
CONSTANT Exact

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the text, its tokens and the places of its characters never change (kept in variables so as to be computed once)
VARIABLES k, Src, Out, Places, Uses

Blur(d) == IF Exact THEN d ELSE [d EXCEPT ![1] = 0, ![2] = 0]
Where(lo, hi) == Blur(Describe(Places, lo, hi))

PMH == <<112, 109, 104>>
AT  == <<97, 116>>

\* pmh : : at ! ( number
UsesIn(src, out) ==
  LET Is(x, w) == x.k = "id" /\ SubSeq(src, x.lo, x.hi - 1) = w
  IN {j \in 1 .. Len(out) - 6 : Is(out[j], PMH) /\ Is(out[j + 3], AT) /\ out[j + 5].k = "op"}

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Use(n) == CHOOSE j \in Uses : SubSeq(Src, Out[j + 6].lo, Out[j + 6].hi - 1) = Digits(n)
EndOfUse(o) == CHOOSE j \in o .. Len(Out) : Out[j].k = "cl" /\ Out[j].lo = Out[o].lo

\* spacing is not looked at here
SameKind(a, b) == IF a[1] = 2 THEN b[1] = 2 /\ a[2] = b[2] ELSE a = b
SameTokensBut(a, b) == Len(a) = Len(b) /\ \A j \in 1 .. Len(a) : SameKind(a[j], b[j])

QUOTECH == 39
Quote(items, j) == j \in 1 .. Len(items) /\ items[j].k = "pu" /\ items[j].ch = QUOTECH

\* Where token j of a use may be said to be: <<set>>, for a group three of them.  The compiler locates both parts of a
\* lifetime at the whole of it.
PlacesOf(items, j) ==
  LET x == items[j] IN
  CASE x.k = "cl" -> <<>>
    [] x.k = "op" -> LET e == GroupEnd(items, j)
                     IN << {Where(x.lo, e)}, {Where(x.lo, x.lo + 1)}, {Where(e - 1, e)} >>
    [] Quote(items, j) -> << {Where(x.lo, x.hi), Where(x.lo, items[j + 1].hi)} >>
    [] Quote(items, j - 1) -> << {Where(x.lo, x.hi), Where(items[j - 1].lo, x.hi)} >>
    [] OTHER -> << {Where(x.lo, x.hi)} >>
LocationsOk(items, got) ==
  /\ Len(items) = Len(got)
  /\ \A j \in 1 .. Len(items) :
       LET want == PlacesOf(items, j) IN
       Len(want) = Len(got[j]) /\ \A m \in 1 .. Len(want) : Len(got[j][m]) = 1 /\ got[j][m][1] \in want[m]
Whole(items, j) == <<items[j].lo, IF items[j].k = "op" THEN GroupEnd(items, j) ELSE items[j].hi>>

PairOk(items, p) ==
  LET x == Whole(items, p[1])  y == Whole(items, p[2])
      lo == IF x[1] < y[1] THEN x[1] ELSE y[1]
      hi == IF x[2] > y[2] THEN x[2] ELSE y[2]
  IN /\ p[3] = (IF Exact THEN <<Where(lo, hi)>> ELSE <<>>)
     /\ p[4] = Where(x[1], x[2])
     /\ p[5] = Where(y[1], y[2])
     /\ p[6] = <<>> \/ p[6] = <<IF p[1] = p[2] THEN 1 ELSE 0>>       \* tokens at different places have different spans
     /\ p[7] = <<>> \/ p[7] = <<1>>

\* byte offset within the literal -> position; literals are divided between characters only
PartOk(items, p) ==
  LET x == items[p[1]]
      PosAt(b) == CHOOSE q \in x.lo .. x.hi : Places.at[q][1] = Places.at[x.lo][1] + b
      len == Places.at[x.hi][1] - Places.at[x.lo][1]
  IN IF ~Exact \/ p[2] > p[3] \/ p[3] > len THEN p[4] = <<>>
     ELSE \/ p[4] = <<Where(PosAt(p[2]), PosAt(p[3]))>>
          \/ p[2] = p[3] /\ p[4] = <<>>          \* whether an empty part has a location is the compiler's affair

Verdict(r) ==
  IF Len(r) = 1 THEN "panic while asking for locations inside a macro"
  ELSE LET j == Use(r[1])
           c == EndOfUse(j + 5)
           items == SubSeq(Out, j + 6, c - 1)
       IN CASE ~SameTokensBut(ExpandAll(Src, items), r[2]) -> "wrong tokens"
            [] ~LocationsOk(items, r[3]) -> "wrong location inside a macro"
            [] r[4] # <<Where(Out[j].lo, Out[c].hi), Where(Out[j].lo, Out[c].hi)>> -> "wrong call site"
            [] \E p \in 1 .. Len(r[5]) : ~PairOk(items, r[5][p]) -> "wrong combination of locations"
            [] \E p \in 1 .. Len(r[6]) : ~PartOk(items, r[6][p]) -> "wrong location of a part of a literal"
            [] r[7] # 1 -> "wrong file"
            [] OTHER -> ""

Init == /\ k = 1
        /\ Src = Trace[1][1]
        /\ Out = Lex(Src).out
        /\ Places = Tab(Src)
        /\ Uses = UsesIn(Src, Out)
Next == k <= Len(Trace) /\ k' = k + 1 /\ UNCHANGED <<Src, Out, Places, Uses>>
Conforms ==
  k <= Len(Trace) =>
    IF k = 1
    THEN \* every use was seen
         Cardinality(Uses) = Len(Trace) - 1 \/ PrintT(<<"MISMATCH", k, "a use of the macro is missing">>)
    ELSE LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
==============================================================================
