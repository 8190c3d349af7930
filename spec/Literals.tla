------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* What a literal denotes.  Decode gives the value of a well-formed string-*)
(* like literal: a sequence of characters for "str" and "char", a sequence *)
(* of bytes for "byte", "bytechar" and "c" (without the terminating NUL).  *)
(* Numbers denote decimal integers or decimal fractions, see NumValue.     *)
(***************************************************************************)
EXTENDS Lexer

\* UTF-8 bytes of a character
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* how a character contributes to the value
Unit(c, mode) == IF mode = "c" THEN Utf8(c) ELSE <<c>>

SimpleValue(e) == CASE e = 110 -> 10 [] e = 114 -> 13 [] e = 116 -> 9
                    [] e = 48 -> 0 [] OTHER -> e          \* \\ \' \"

\* Value and end of the escape whose backslash is at i: <<units, next position>>
EscapeValue(s, i, mode) ==
  LET e == At(s, i + 1) IN
  CASE e = 120 -> LET v == 16 * HexVal(s[i + 2]) + HexVal(s[i + 3])
                  IN <<IF mode = "str" THEN <<v>> ELSE IF v < 128 THEN Unit(v, mode) ELSE <<v>>, i + 4>>
    [] e = 117 -> LET u == UniEsc(s, i + 2) IN <<Unit(u[2], mode), u[1]>>
    [] e = LF \/ e = CR -> <<<<>>, ContinuationEnd(s, i + 2, e)>>
    [] OTHER -> <<<<SimpleValue(e)>>, i + 2>>

\* a long run of characters that stand for themselves (shallow recursion)
Itself(s, i, mode) == PlainRun(s, i, mode) /\ (mode = "c" => \A k \in i .. i + Stride : s[k] < 128)

\* <<value of one piece at i, where the next begins>>; i is inside the quotes; h < 0: with escapes
Piece(s, i, h, mode) ==
  LET c == s[i] IN
  IF c = BSLASH /\ h < 0 THEN EscapeValue(s, i, mode)
  ELSE IF c = CR THEN <<Unit(LF, mode), i + 2>>                          \* CRLF reads as LF
  ELSE IF Itself(s, i, mode) THEN <<SubSeq(s, i, i + Stride), i + Stride + 1>>
  ELSE <<Unit(c, mode), i + 1>>

\* <<value of up to n pieces, position reached>> (halved: shallow recursion)
RECURSIVE Pieces(_, _, _, _, _)
Pieces(s, i, h, mode, n) ==
  IF Closes(s, i, h) THEN <<<<>>, i>>
  ELSE IF n = 1 THEN Piece(s, i, h, mode)
  ELSE LET l == Pieces(s, i, h, mode, n \div 2)
           r == Pieces(s, l[2], h, mode, n - (n \div 2))
       IN <<l[1] \o r[1], r[2]>>

\* <<value, position of the closing quote>>, <<value, position of the last closing hash>>
CookedValue(s, i, mode) == Pieces(s, i, -1, mode, Len(s))
RawValue(s, i, h, mode) == LET v == Pieces(s, i, h, mode, Len(s)) IN <<v[1], v[2] + h>>

RawDecode(s, i, mode) == LET q == Hashes(s, i) IN RawValue(s, q + 1, q - i, mode)

CharDecode(s, i, mode) ==
  IF s[i] = BSLASH THEN EscapeValue(s, i, mode) ELSE <<<<s[i]>>, i + 1>>

\* For a well-formed literal s: [kind, val, sfx (first position of the suffix)]
Decode(s) ==
  LET c == At(s, 1)  d == At(s, 2)
      R(k, v) == [kind |-> k, val |-> v[1], sfx |-> v[2] + 1]
  IN
  CASE c = QUOTE -> R("str", CookedValue(s, 2, "str"))
    [] c = APOS  -> R("char", CharDecode(s, 2, "str"))
    [] c = 114   -> R("str", RawDecode(s, 2, "str"))
    [] c = 98 /\ d = QUOTE -> R("byte", CookedValue(s, 3, "byte"))
    [] c = 98 /\ d = APOS  -> R("bytechar", CharDecode(s, 3, "byte"))
    [] c = 98 /\ d = 114   -> R("byte", RawDecode(s, 3, "byte"))
    [] c = 99 /\ d = QUOTE -> R("c", CookedValue(s, 3, "c"))
    [] c = 99 /\ d = 114   -> R("c", RawDecode(s, 3, "c"))
    [] OTHER -> [kind |-> "num", val |-> <<>>, sfx |-> 0]

WholeLiteral(s) == Len(s) > 0 /\ LitEnd(s, 1) = Len(s) + 1

HasSuffix(s, d) == d.sfx <= Len(s)

\* literal text t denotes, without suffix, the value v of kind k
Denotes(t, k, v) ==
  WholeLiteral(t) /\ LET d == Decode(t) IN d.kind = k /\ ~HasSuffix(t, d) /\ d.val = v
=============================================================================
