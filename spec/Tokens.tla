------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Token streams as values: flat sequences of                              *)
(*   <<1, c1, c2, ...>>   identifier with its spelling (r# included)       *)
(*   <<2, ch, joint>>     punctuation, joint is 0 or 1                     *)
(*   <<3, c1, c2, ...>>   literal with its spelling                        *)
(*   <<4, d>>, <<5, d>>   opening and closing of a group with delimiter d: *)
(*                        1 ()   2 {}   3 []   0 invisible                 *)
(* This is the projection the conformance harness records.                 *)
(***************************************************************************)
EXTENDS Literals

IdTok(t)  == <<1>> \o t
PuTok(c, joint) == <<2, c, IF joint THEN 1 ELSE 0>>
LiTok(t)  == <<3>> \o t
OpTok(d)  == <<4, d>>
ClTok(d)  == <<5, d>>

DocWord == <<100, 111, 99>>

\* Expected tokens of one lexed item; a doc literal is left as <<6, from, to>>:
\* its spelling is not prescribed, only its value.
Expand(s, t) ==
  CASE t.k = "id" -> <<IdTok(SubSeq(s, t.lo, t.hi - 1))>>
    [] t.k = "li" -> <<LiTok(SubSeq(s, t.lo, t.hi - 1))>>
    [] t.k = "pu" -> <<PuTok(t.ch, t.joint)>>
    [] t.k = "op" -> <<OpTok(t.d)>>
    [] t.k = "cl" -> <<ClTok(t.d)>>
    [] t.k = "doc" -> <<PuTok(HASH, FALSE)>>
                      \o (IF t.inner THEN <<PuTok(BANG, FALSE)>> ELSE <<>>)
                      \o <<OpTok(3), IdTok(DocWord), PuTok(61, FALSE),
                           <<6, t.tlo, t.thi>>, ClTok(3)>>

RECURSIVE ExpandBetween(_, _, _, _)
ExpandBetween(s, out, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN Expand(s, out[a])
  ELSE LET m == (a + b) \div 2 IN ExpandBetween(s, out, a, m) \o ExpandBetween(s, out, m + 1, b)
ExpandAll(s, out) == ExpandBetween(s, out, 1, Len(out))

\* does the recorded token g match the expected token e of source s ?
TokMatch(s, e, g) ==
  IF e[1] # 6 THEN e = g
  ELSE g[1] = 3 /\ Denotes(Tail(g), "str", SubSeq(s, e[2], e[3] - 1))

TokensMatch(s, exp, got) ==
  /\ Len(exp) = Len(got)
  /\ \A k \in 1 .. Len(exp) : TokMatch(s, exp[k], got[k])

\* equality of two recorded streams, doc or not
SameTokens(a, b) == a = b
=============================================================================
