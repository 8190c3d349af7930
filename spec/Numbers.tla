------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* Exact values of numeric literals.  A natural number of any size is a    *)
(* little-endian sequence of digits in base 10000 without leading zeros.   *)
(***************************************************************************)
EXTENDS Tokens

Base == 10000

\* a * m + c   (m, c < 100000)
RECURSIVE MulAddFrom(_, _, _, _, _)
MulAddFrom(a, i, m, c, acc) ==
  IF i > Len(a)
  THEN IF c = 0 THEN acc
       ELSE IF c < Base THEN Append(acc, c)
       ELSE MulAddFrom(a, i, m, c \div Base, Append(acc, c % Base))
  ELSE LET v == a[i] * m + c IN MulAddFrom(a, i + 1, m, v \div Base, Append(acc, v % Base))
MulAdd(a, m, c) == IF m = 0 THEN MulAddFrom(<<>>, 1, 0, c, <<>>) ELSE MulAddFrom(a, 1, m, c, <<>>)

\* a - 1, a > 0
RECURSIVE DecFrom(_, _)
DecFrom(a, i) == IF a[i] > 0 THEN [a EXCEPT ![i] = @ - 1] ELSE DecFrom([a EXCEPT ![i] = Base - 1], i + 1)
RECURSIVE Trim(_)
Trim(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Pred(a) == Trim(DecFrom(a, 1))

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

RECURSIVE TimesPow2(_, _)
TimesPow2(a, n) == IF n <= 0 THEN a
                   ELSE IF n >= 16 THEN TimesPow2(MulAdd(a, 65536, 0), n - 16)
                   ELSE TimesPow2(MulAdd(a, 2, 0), n - 1)
Zeros(n) == [i \in 1 .. n |-> 0]
TimesPow10(a, n) ==
  IF n <= 0 \/ a = <<>> THEN a
  ELSE LET rest == n % 4
           m == CASE rest = 0 -> 1 [] rest = 1 -> 10 [] rest = 2 -> 100 [] OTHER -> 1000
       IN Zeros(n \div 4) \o MulAdd(a, m, 0)

\* the number written by bytes b (little endian)
RECURSIVE FromBytes(_, _, _)
FromBytes(b, i, acc) == IF i = 0 THEN acc ELSE FromBytes(b, i - 1, MulAdd(acc, 256, b[i]))
BytesValue(b) == FromBytes(b, Len(b), <<>>)

\* digits of t[i .. j-1] in the given base, underscores ignored
RECURSIVE DigitsValue(_, _, _, _, _)
DigitsValue(t, i, j, base, acc) ==
  IF i >= j THEN acc
  ELSE IF t[i] = USCORE THEN DigitsValue(t, i + 1, j, base, acc)
  ELSE DigitsValue(t, i + 1, j, base, MulAdd(acc, base, HexVal(t[i])))

\* integer literal t (no sign): <<ok, value, position of the suffix>>
IntValue(t) ==
  LET e == IntDigitsEnd(t, 1)
      x == IF At(t, 1) = 48 THEN At(t, 2) ELSE EOF
      base == CASE x = 120 -> 16 [] x = 111 -> 8 [] x = 98 -> 2 [] OTHER -> 10
      from == IF base = 10 THEN 1 ELSE 3
  IN IF e = 0 THEN <<FALSE, <<>>, 0>> ELSE <<TRUE, DigitsValue(t, from, e, base, <<>>), e>>

---------------------------------------------------------------------------
(* Floats.  A decimal text denotes D * 10^q. *)

\* number of digits (not underscores) in t[i .. j-1]
DigitCount(t, i, j) ==
  LET RECURSIVE F(_, _)
      F(p, n) == IF p >= j THEN n ELSE F(p + 1, IF t[p] = USCORE THEN n ELSE n + 1)
  IN F(i, 0)

\* small signed integer at t[i .. j-1] (exponent)
ExpValue(t, i, j) ==
  LET RECURSIVE F(_, _)
      F(p, n) == IF p >= j THEN n ELSE F(p + 1, IF IsDigit(t[p]) THEN 10 * n + (t[p] - 48) ELSE n)
      neg == \E p \in i .. j - 1 : t[p] = MINUS
  IN IF neg THEN -F(i, 0) ELSE F(i, 0)

\* t[1 .. e-1] is a decimal number, e the position of the suffix: <<D, q>>
DecValue(t, e) ==
  LET a == DecRun(t, 1)                                     \* end of integer part
      dot == a < e /\ t[a] = DOT
      b == IF dot THEN DecRun(t, a + 1) ELSE a               \* end of fraction
      x == IF b < e /\ IsE(t[b]) THEN ExpValue(t, b + 1, e) ELSE 0
      int == DigitsValue(t, 1, a, 10, <<>>)
      all == IF dot THEN DigitsValue(t, a + 1, b, 10, int) ELSE int
      frac == IF dot THEN DigitCount(t, a + 1, b) ELSE 0
  IN <<all, x - frac>>

\* compare D*10^q with N*2^e
CmpDecBin(D, q, N, e) ==
  LET l == TimesPow2(TimesPow10(D, q), -e)
      r == TimesPow2(TimesPow10(N, -q), e)
  IN Cmp(l, r)

\* Does D*10^q round (to nearest, ties to even) to the float M*2^e, M its integral significand?
\* low: M is the smallest significand of its binade, the next float below is half as far away.
RoundsTo(D, q, M, e, even, low) ==
  IF M = <<>> THEN D = <<>> \/ (LET c == CmpDecBin(D, q, <<1>>, e - 1) IN c <= 0)
  ELSE LET up == CmpDecBin(D, q, MulAdd(M, 2, 1), e - 1)
           dn == IF low THEN CmpDecBin(D, q, Pred(MulAdd(M, 4, 0)), e - 2)
                 ELSE CmpDecBin(D, q, Pred(MulAdd(M, 2, 0)), e - 1)
       IN (up < 0 \/ (up = 0 /\ even)) /\ (dn > 0 \/ (dn = 0 /\ even))

\* IEEE 754 bits (bytes, little endian): [neg, exp, M, e, even, low, finite]
Float64(b) ==
  LET ex == (b[8] % 128) * 16 + (b[7] \div 16)
      frac == <<b[1], b[2], b[3], b[4], b[5], b[6], b[7] % 16>>
      sig == IF ex = 0 THEN frac ELSE [frac EXCEPT ![7] = @ + 16]
  IN [neg |-> b[8] >= 128, finite |-> ex # 2047, M |-> BytesValue(sig),
      e |-> (IF ex = 0 THEN 1 ELSE ex) - 1075, even |-> b[1] % 2 = 0,
      low |-> ex > 1 /\ \A i \in 1 .. 7 : frac[i] = 0]
Float32(b) ==
  LET ex == (b[4] % 128) * 2 + (b[3] \div 128)
      frac == <<b[1], b[2], b[3] % 128>>
      sig == IF ex = 0 THEN frac ELSE [frac EXCEPT ![3] = @ + 128]
  IN [neg |-> b[4] >= 128, finite |-> ex # 255, M |-> BytesValue(sig),
      e |-> (IF ex = 0 THEN 1 ELSE ex) - 150, even |-> b[1] % 2 = 0,
      low |-> ex > 1 /\ \A i \in 1 .. 3 : frac[i] = 0]
==============================================================================
