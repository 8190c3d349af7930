------------------------------- MODULE Totality -------------------------------
(***************************************************************************)
(* Texts of any size: families open^n mid close^n.  What lexing such a     *)
(* text gives -- outcome, number of tokens, nesting depth -- is linear in  *)
(* n (MC_Total checks this against the lexer for small n), so it can be    *)
(* predicted for n far beyond what can be lexed step by step here.         *)
(***************************************************************************)
EXTENDS Tokens

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE IF n % 2 = 0 THEN LET h == Rep(x, n \div 2) IN h \o h ELSE x \o Rep(x, n - 1)

Text(f, n) == Rep(f[1], n) \o f[2] \o Rep(f[3], n)

RECURSIVE DepthOf(_, _, _, _)
DepthOf(toks, k, d, m) ==
  IF k > Len(toks) THEN m
  ELSE IF toks[k][1] = 4 THEN DepthOf(toks, k + 1, d + 1, IF d + 1 > m THEN d + 1 ELSE m)
  ELSE IF toks[k][1] = 5 THEN DepthOf(toks, k + 1, d - 1, m)
  ELSE DepthOf(toks, k + 1, d, m)

\* <<1, tokens, depth>> or <<0, 0, 0>>
Summary(s) ==
  LET fin == Lex(s) IN
  IF fin.st = "err" THEN <<0, 0, 0>>
  ELSE LET t == ExpandAll(s, fin.out) IN <<1, Len(t), DepthOf(t, 1, 0, 0)>>

\* from two small members of the family
Predict(f, n) ==
  IF n <= 3 THEN Summary(Text(f, n))
  ELSE LET p == Summary(Text(f, 2))  q == Summary(Text(f, 3))
       IN IF p[1] = 0 THEN <<0, 0, 0>>
          ELSE <<1, p[2] + (n - 2) * (q[2] - p[2]), p[3] + (n - 2) * (q[3] - p[3])>>

\* 8 parse as a literal   9 with a minus in front
Literally(f, n, minus) ==
  LET t == Text(f, IF n <= 3 THEN n ELSE 3) IN <<IF LiteralFromStr(IF minus THEN <<MINUS>> \o t ELSE t) THEN 1 ELSE 0, 0, 0>>

\* What is counted after an operation on the stream s = <<1, c, d>>:
\*  1 parse   2 clone, drop the original   4 append a clone of itself   5 wrap m times by hand
\*  6 iterate over half of it, collect the rest onto what was taken   7 change a copy of the content of every level
\*  3 take out the content of every group on the way down: number of levels
After(op, s, m) ==
  IF s[1] = 0 THEN s
  ELSE CASE op \in {1, 2, 6, 7} -> s
         [] op = 3 -> <<1, s[3], s[3]>>
         [] op = 4 -> <<1, 2 * s[2], s[3]>>
         [] op = 5 -> <<1, s[2] + 2 * m, s[3] + m>>
===============================================================================
