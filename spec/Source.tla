-------------------------------- MODULE Source --------------------------------
(***************************************************************************)
(* Locations in a source text: a location is a range of character          *)
(* positions lo .. hi-1 (1-based); what can be asked about it is a         *)
(* descriptor                                                              *)
(*   <<first byte, last byte + 1, line, column, line, column, <<text>>>>   *)
(* with 0-based bytes, 1-based lines and 0-based character columns.        *)
(***************************************************************************)
EXTENDS Tokens

\* where position i + 1 is, if position i is at p = <<byte, line, column>> and holds c
Advance(p, c) == <<p[1] + Utf8Len(c), IF c = LF THEN p[2] + 1 ELSE p[2], IF c = LF THEN 0 ELSE p[3] + 1>>

\* <<byte, line, column>> of the positions a .. b, the first of them being at p (halved: shallow recursion)
RECURSIVE Positions(_, _, _, _)
Positions(s, a, b, p) ==
  IF a = b THEN <<p>>
  ELSE LET m == (a + b) \div 2
           l == Positions(s, a, m, p)
       IN l \o Positions(s, m + 1, b, Advance(l[Len(l)], s[m]))

\* a text and where its positions 1 .. Len(s)+1 are
Tab(s) == [s |-> s, at |-> Positions(s, 1, Len(s) + 1, <<0, 1, 0>>)]

Describe(t, lo, hi) ==
  <<t.at[lo][1], t.at[hi][1], t.at[lo][2], t.at[lo][3], t.at[hi][2], t.at[hi][3], <<SubSeq(t.s, lo, hi - 1)>> >>

\* call-site locations: nowhere
CallSite == <<0, 0, 1, 0, 1, 0, <<>> >>

\* Expected descriptors per flat token.  A value <<set of allowed>> for leaves,
\* <<whole, open, close>> (each a set) for an opening delimiter, <<>> for a closing one.
\* The position of the end of the group is looked up in the lexer's output.
GroupEnd(out, k) ==
  LET j == CHOOSE j \in k .. Len(out) : out[j].k = "cl" /\ out[j].lo = out[k].lo IN out[j].hi

WhereOne(t, out, k) ==
  LET x == out[k] IN
  CASE x.k \in {"id", "li", "pu"} -> <<<<{Describe(t, x.lo, x.hi)}>>>>
    [] x.k = "cl" -> <<<<>>>>
    [] x.k = "op" -> LET e == GroupEnd(out, k)
                     IN <<<<{Describe(t, x.lo, e)}, {Describe(t, x.lo, x.lo + 1)}, {Describe(t, e - 1, e)}>>>>
    [] x.k = "doc" ->
         \* the carriage return of a CRLF after a line comment may or may not be included
         LET D == {Describe(t, x.lo, x.hi)} \cup
                  (IF At(t.s, x.lo + 1) = SLASH THEN {Describe(t, x.lo, x.thi)} ELSE {})
             O == {<<d[1], d[1] + 1, d[3], d[4], d[3], d[4] + 1, <<<<SLASH>>>> >> : d \in D}
             lastCh(d) == d[7][1][Len(d[7][1])]
             hiPos(d) == x.lo + Len(d[7][1])
             C == {Describe(t, hiPos(d) - 1, hiPos(d)) : d \in D}
             leaf == <<D>>
         IN <<leaf>> \o (IF x.inner THEN <<leaf>> ELSE <<>>)
            \o << <<D, O, C>>, leaf, leaf, leaf, <<>> >>

RECURSIVE WhereBetween(_, _, _, _)
WhereBetween(t, out, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN WhereOne(t, out, a)
  ELSE LET m == (a + b) \div 2 IN WhereBetween(t, out, a, m) \o WhereBetween(t, out, m + 1, b)
WhereAll(t, out) == WhereBetween(t, out, 1, Len(out))

\* recorded: per token a sequence of lists of distinct descriptors, each must be a single allowed one
PlaceOk(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A j \in 1 .. Len(want) : Len(got[j]) = 1 /\ got[j][1] \in want[j]
PlacesOk(want, got) ==
  Len(want) = Len(got) /\ \A k \in 1 .. Len(want) : PlaceOk(want[k], got[k])
===============================================================================
