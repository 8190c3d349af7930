------------------------------- MODULE Idents -------------------------------
(* Which identifiers exist, and how they compare. *)
EXTENDS Lexer

ValidIdent(s) == Len(s) > 0 /\ IdEnd(s, 1) = Len(s) + 1
ValidRaw(s) == ValidIdent(s) /\ s \notin NotRawable
RawText(s) == <<114, HASH>> \o s

\* the whole text is one identifier token
LexesAsIdent(s) == Len(s) > 0 /\ IdAnyEnd(s, 1) = Len(s) + 1

\* -1, 0, 1: the order of the spellings (code point order, which UTF-8 preserves)
Compare(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1 .. n : a[i] # b[i]}
      d == CHOOSE i \in D : \A j \in D : i <= j
  IN IF a = b THEN 0
     ELSE IF D = {} THEN IF Len(a) < Len(b) THEN -1 ELSE 1
     ELSE IF a[d] < b[d] THEN -1 ELSE 1
=============================================================================
