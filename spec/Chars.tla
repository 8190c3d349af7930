-------------------------------- MODULE Chars --------------------------------
(***************************************************************************)
(* Characters are Unicode scalar values, written as integers.  Strings are *)
(* sequences of such integers.  -1 stands for "end of input".              *)
(***************************************************************************)
EXTENDS Integers, Sequences, XidTable

EOF == -1

\* Character of s at position i, EOF past the end.
At(s, i) == IF i <= Len(s) THEN s[i] ELSE EOF

LF == 10  CR == 13  TAB == 9  SP == 32  NUL == 0
QUOTE == 34     \* "
APOS == 39      \* '
BSLASH == 92    \* \
SLASH == 47     \* /
STAR == 42      \* *
BANG == 33      \* !
HASH == 35      \* #
MINUS == 45
DOT == 46
USCORE == 95

\* Is c inside one of the sorted ranges R[lo..hi] ?
RECURSIVE InRangesFrom(_, _, _, _)
InRangesFrom(R, c, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET m == (lo + hi) \div 2 IN
       IF c < R[m][1] THEN InRangesFrom(R, c, lo, m - 1)
       ELSE IF c > R[m][2] THEN InRangesFrom(R, c, m + 1, hi)
       ELSE TRUE
InRanges(R, c) == InRangesFrom(R, c, 1, Len(R))

IsDigit(c) == c >= 48 /\ c <= 57
IsOct(c)   == c >= 48 /\ c <= 55
IsHex(c)   == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c)  == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsAsciiLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsAscii(c) == c >= 0 /\ c < 128

\* Identifier characters (Rust reference: XID_Start or '_', then XID_Continue).
IsIdStart(c) == IF c < 128 THEN IsAsciiLetter(c) \/ c = USCORE
                ELSE InRanges(XidStartRanges, c)
IsIdCont(c)  == IF c < 128 THEN IsAsciiLetter(c) \/ c = USCORE \/ IsDigit(c)
                ELSE InRanges(XidContinueRanges, c)

\* Characters whose identifier properties differ between Unicode versions: the specification
\* says nothing about them (unassigned in 15.0, or ZWNJ, ZWJ and the two katakana middle dots,
\* which became XID_Continue in 15.1).
Unspecified(c) == c > 127 /\ (InRanges(UnassignedRanges, c) \/ c \in {8204, 8205, 12539, 65381})

\* Unicode White_Space plus the two direction marks that rustc treats as whitespace.
IsWhite(c) == \/ c = SP
              \/ c >= 9 /\ c <= 13
              \/ c > 127 /\ ( \/ c = 133 \/ c = 160 \/ c = 5760
                              \/ c >= 8192 /\ c <= 8202
                              \/ c = 8232 \/ c = 8233 \/ c = 8239 \/ c = 8287 \/ c = 12288
                              \/ c = 8206 \/ c = 8207 )

\* ~ ! @ # $ % ^ & * - = + | ; : , < . > / ? '
PunctChars == {126, 33, 64, 35, 36, 37, 94, 38, 42, 45, 61, 43, 124, 59, 58, 44,
               60, 46, 62, 47, 63, 39}

\* Bytes needed to write c in UTF-8.
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

IsScalar(c) == (c >= 0 /\ c <= 55295) \/ (c >= 57344 /\ c <= 1114111)
=============================================================================
