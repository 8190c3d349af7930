-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The lexical grammar that TokenStream::from_str and Literal::from_str    *)
(* accept, as a transition system on configurations                        *)
(*                                                                         *)
(*   [i |-> next position, stk |-> open delimiters, out |-> tokens so far, *)
(*    st |-> "run" | "ok" | "err", at |-> where the error is]              *)
(*                                                                         *)
(* One LexStep is one iteration of the lexer's main loop: skip trivia,     *)
(* then exactly one of: doc comment, end of input, open delimiter, close   *)
(* delimiter, leaf token, error.                                           *)
(*                                                                         *)
(* Positions are 1-based character positions.  An "...End" operator gives  *)
(* the position just after the construct that starts at i, or 0 when there *)
(* is no such construct at i.                                              *)
(*                                                                         *)
(* DEVIATION comments mark places where proc-macro2 knowingly (or at least *)
(* by design) is more permissive than rustc.                               *)
(***************************************************************************)
EXTENDS Chars

---------------------------------------------------------------------------
(* Identifiers *)

\* Long runs are taken in strides: this only keeps the recursion (TLC's stack) shallow.
Stride == 64

RECURSIVE IdTail(_, _)
IdTail(s, i) ==
  IF i > Len(s) \/ ~IsIdCont(s[i]) THEN i
  ELSE IF i + Stride <= Len(s) /\ \A k \in i .. i + Stride : IsIdCont(s[k]) THEN IdTail(s, i + Stride + 1)
  ELSE IdTail(s, i + 1)

IdEnd(s, i) == IF IsIdStart(At(s, i)) THEN IdTail(s, i + 1) ELSE 0

\* optional literal suffix: an identifier glued to the literal
Suffixed(s, i) == LET e == IdEnd(s, i) IN IF e = 0 THEN i ELSE e

\* _ super self Self crate
NotRawable == { <<95>>, <<115,117,112,101,114>>, <<115,101,108,102>>,
                <<83,101,108,102>>, <<99,114,97,116,101>> }

IsRawPrefix(s, i) == At(s, i) = 114 /\ At(s, i + 1) = HASH

\* ident or r#ident
IdAnyEnd(s, i) ==
  IF IsRawPrefix(s, i)
  THEN LET e == IdEnd(s, i + 2)
       IN IF e = 0 THEN 0 ELSE IF SubSeq(s, i + 2, e - 1) \in NotRawable THEN 0 ELSE e
  ELSE IdEnd(s, i)

---------------------------------------------------------------------------
(* Escapes; each gives the position after the escape whose letter is at i  *)

HexPairEnd(s, i, mode) ==       \* i is just after \x
  LET a == At(s, i)  b == At(s, i + 1) IN
  IF ~(IsHex(a) /\ IsHex(b)) THEN 0
  ELSE IF mode = "str" /\ ~IsOct(a) THEN 0          \* 7-bit only
  ELSE IF mode = "c" /\ a = 48 /\ b = 48 THEN 0     \* no NUL in C strings
  ELSE i + 2

\* body of \u{...}: i is after the brace (len = 0) or inside
RECURSIVE UniBody(_, _, _, _)
UniBody(s, i, len, val) ==
  LET c == At(s, i) IN
  IF IsHex(c) THEN IF len = 6 THEN <<0, 0>> ELSE UniBody(s, i + 1, len + 1, val * 16 + HexVal(c))
  ELSE IF c = USCORE /\ len > 0
  THEN UniBody(s, IF i + Stride <= Len(s) /\ \A k \in i .. i + Stride : s[k] = USCORE THEN i + Stride + 1 ELSE i + 1, len, val)
  ELSE IF c = 125 /\ len > 0 /\ IsScalar(val) THEN <<i + 1, val>>
  ELSE <<0, 0>>

\* <<end, value>> of {hex} starting at i, <<0,0>> if malformed
UniEsc(s, i) == IF At(s, i) = 123 THEN UniBody(s, i + 1, 0, 0) ELSE <<0, 0>>

\* a backslash-newline was seen, i is just after the newline character nl:
\* skip ASCII blanks; CR only as part of CRLF
RECURSIVE ContinuationEnd(_, _, _)
ContinuationEnd(s, i, nl) ==
  IF nl = CR /\ At(s, i) # LF THEN 0
  ELSE LET j == IF nl = CR THEN i + 1 ELSE i
           c == At(s, j)
       IN IF c = EOF THEN 0
          ELSE IF j + Stride <= Len(s) /\ \A k \in j .. j + Stride : s[k] \in {SP, TAB, LF} THEN ContinuationEnd(s, j + Stride + 1, SP)
          ELSE IF c \in {SP, TAB, LF, CR} THEN ContinuationEnd(s, j + 1, c)
          ELSE j

SimpleEscapes == {110, 114, 116, 92, 39, 34}    \* n r t \ ' "

\* escape inside a quoted string; i is the position of the backslash
StrEscapeEnd(s, i, mode) ==
  LET e == At(s, i + 1) IN
  CASE e = 120 -> HexPairEnd(s, i + 2, mode)
    [] e \in SimpleEscapes -> i + 2
    [] e = 48 -> IF mode = "c" THEN 0 ELSE i + 2
    [] e = 117 -> IF mode = "byte" THEN 0
                  ELSE LET u == UniEsc(s, i + 2)
                       IN IF mode = "c" /\ u[2] = 0 THEN 0 ELSE u[1]
    [] e = LF \/ e = CR -> ContinuationEnd(s, i + 2, e)
    [] OTHER -> 0

\* characters that may not appear unescaped in the body
Forbidden(c, mode) == \/ mode = "byte" /\ c > 127
                      \/ mode = "c" /\ c = NUL

Plain(c, mode) == c # QUOTE /\ c # CR /\ c # BSLASH /\ ~Forbidden(c, mode)
PlainRun(s, i, mode) == i + Stride <= Len(s) /\ \A k \in i .. i + Stride : Plain(s[k], mode)

\* One step inside a string at i: the next position, or 0 for a malformed string, or i itself at the closing quote.
\* h < 0: with escapes; otherwise raw, with h hashes
Closes(s, i, h) == At(s, i) = QUOTE /\ (h < 0 \/ (i + h <= Len(s) /\ \A k \in i + 1 .. i + h : s[k] = HASH))
StringStep(s, i, h, mode) ==
  LET c == At(s, i) IN
  IF c = EOF \/ Forbidden(c, mode) THEN 0
  ELSE IF c = CR THEN IF At(s, i + 1) = LF THEN i + 2 ELSE 0
  ELSE IF c = BSLASH /\ h < 0 THEN StrEscapeEnd(s, i, mode)
  ELSE IF PlainRun(s, i, mode) THEN i + Stride + 1
  ELSE i + 1

\* up to n steps, halved so that the recursion stays shallow
RECURSIVE StringSteps(_, _, _, _, _)
StringSteps(s, i, h, mode, n) ==
  IF i = 0 \/ Closes(s, i, h) THEN i
  ELSE IF n = 1 THEN StringStep(s, i, h, mode)
  ELSE StringSteps(s, StringSteps(s, i, h, mode, n \div 2), h, mode, n - (n \div 2))

\* i is inside the quotes; every step advances or fails
StringEnd(s, i, h, mode) ==
  LET q == StringSteps(s, i, h, mode, Len(s) + 2)
  IN IF q = 0 THEN 0 ELSE Suffixed(s, q + 1 + (IF h < 0 THEN 0 ELSE h))
CookedEnd(s, i, mode) == StringEnd(s, i, -1, mode)

---------------------------------------------------------------------------
(* Raw strings *)

RECURSIVE Hashes(_, _)
Hashes(s, i) == IF At(s, i) = HASH THEN Hashes(s, i + 1) ELSE i

MaxHashes == 255

\* i is just after the r
RawEnd(s, i, mode) ==
  LET q == Hashes(s, i) IN
  IF At(s, q) # QUOTE \/ q - i > MaxHashes THEN 0 ELSE StringEnd(s, q + 1, q - i, mode)

---------------------------------------------------------------------------
(* Character and byte literals; i is just after the opening quote          *)
(* DEVIATION: an unescaped ' or newline or TAB between the quotes is let   *)
(* through here; rustc rejects it later.                                   *)

CharBodyEnd(s, i, mode) ==
  LET c == At(s, i) IN
  IF c = EOF THEN 0
  ELSE IF c = BSLASH
  THEN LET e == At(s, i + 1) IN
       CASE e = 120 -> HexPairEnd(s, i + 2, mode)
         [] e \in SimpleEscapes \/ e = 48 -> i + 2
         [] e = 117 -> IF mode = "byte" THEN 0 ELSE UniEsc(s, i + 2)[1]
         [] OTHER -> 0
  ELSE IF Forbidden(c, mode) THEN 0
  ELSE i + 1

CharEnd(s, i, mode) ==
  LET j == CharBodyEnd(s, i, mode) IN
  IF j = 0 THEN 0 ELSE IF At(s, j) = APOS THEN Suffixed(s, j + 1) ELSE 0

---------------------------------------------------------------------------
(* Numbers *)

RECURSIVE DecRun(_, _)
DecRun(s, i) ==
  IF ~(IsDigit(At(s, i)) \/ At(s, i) = USCORE) THEN i
  ELSE IF i + Stride <= Len(s) /\ \A k \in i .. i + Stride : IsDigit(s[k]) \/ s[k] = USCORE THEN DecRun(s, i + Stride + 1)
  ELSE DecRun(s, i + 1)

\* exponent characters from i on; v: a digit was seen, g: a sign was seen.
\* Result 0: not an exponent.
\* DEVIATION: underscores may precede the sign.
RECURSIVE ExpEnd(_, _, _, _)
ExpEnd(s, i, v, g) ==
  LET c == At(s, i) IN
  IF c = 43 \/ c = MINUS
  THEN IF v THEN i ELSE IF g THEN 0 ELSE ExpEnd(s, i + 1, v, TRUE)
  ELSE IF IsDigit(c) \/ c = USCORE
  THEN LET j == DecRun(s, i) IN ExpEnd(s, j, v \/ \E k \in i .. j - 1 : s[k] # USCORE, g)
  ELSE IF v THEN i ELSE 0

IsE(c) == c = 101 \/ c = 69

\* integer part, optional fraction, optional exponent; 0 unless there is a fraction or an exponent
FloatDigitsEnd(s, i) ==
  IF ~IsDigit(At(s, i)) THEN 0
  ELSE LET a == DecRun(s, i)          \* after integer part
       IN IF At(s, a) = DOT
          THEN IF At(s, a + 1) = DOT \/ IsIdStart(At(s, a + 1)) THEN 0
               ELSE LET b == DecRun(s, a + 1)
                    IN IF IsE(At(s, b))
                       THEN LET x == ExpEnd(s, b + 1, FALSE, FALSE) IN IF x = 0 THEN b ELSE x
                       ELSE b
          ELSE IF IsE(At(s, a)) THEN ExpEnd(s, a + 1, FALSE, FALSE)
          ELSE 0

\* suffix, then no identifier character may follow
NumSuffixed(s, i) ==
  IF i = 0 THEN 0
  ELSE LET e == Suffixed(s, i) IN IF IsIdCont(At(s, e)) THEN 0 ELSE e

\* digits of an integer in the given base, underscores among them
InBase(c, base) == c = USCORE \/ (IsDigit(c) /\ c - 48 < base) \/ (base = 16 /\ IsHex(c))
RECURSIVE BaseRun(_, _, _)
BaseRun(s, i, base) ==
  IF ~InBase(At(s, i), base) THEN i
  ELSE IF i + Stride <= Len(s) /\ \A k \in i .. i + Stride : InBase(s[k], base) THEN BaseRun(s, i + Stride + 1, base)
  ELSE BaseRun(s, i + 1, base)

\* not empty, not followed by a digit that is too large; an underscore may come first only after a prefix
DigitsEnd(s, i, base) ==
  LET j == BaseRun(s, i, base) IN
  IF IsDigit(At(s, j)) \/ ~(\E k \in i .. j - 1 : s[k] # USCORE) \/ (base = 10 /\ s[i] = USCORE) THEN 0 ELSE j

IntDigitsEnd(s, i) ==
  LET x == IF At(s, i) = 48 THEN At(s, i + 1) ELSE EOF IN
  CASE x = 120 -> DigitsEnd(s, i + 2, 16)
    [] x = 111 -> DigitsEnd(s, i + 2, 8)
    [] x = 98  -> DigitsEnd(s, i + 2, 2)
    [] OTHER   -> DigitsEnd(s, i, 10)

NumberEnd(s, i) ==
  LET f == NumSuffixed(s, FloatDigitsEnd(s, i))
  IN IF f # 0 THEN f ELSE NumSuffixed(s, IntDigitsEnd(s, i))

---------------------------------------------------------------------------
(* Literals *)

LitEnd(s, i) ==
  LET c == At(s, i)  d == At(s, i + 1) IN
  CASE c = QUOTE -> CookedEnd(s, i + 1, "str")
    [] c = APOS  -> CharEnd(s, i + 1, "str")
    [] IsDigit(c) -> NumberEnd(s, i)
    [] c = 114 -> RawEnd(s, i + 1, "str")
    [] c = 98 -> CASE d = QUOTE -> CookedEnd(s, i + 2, "byte")
                   [] d = APOS  -> CharEnd(s, i + 2, "byte")
                   [] d = 114   -> RawEnd(s, i + 2, "byte")
                   [] OTHER -> 0
    [] c = 99 -> CASE d = QUOTE -> CookedEnd(s, i + 2, "c")
                   [] d = 114   -> RawEnd(s, i + 2, "c")
                   [] OTHER -> 0
    [] OTHER -> 0

\* Literal::from_str: one literal and nothing else; a leading minus only before a digit.
LiteralFromStr(s) ==
  LET neg == At(s, 1) = MINUS
      i == IF neg THEN 2 ELSE 1
  IN /\ neg => IsDigit(At(s, 2))
     /\ LitEnd(s, i) = Len(s) + 1

---------------------------------------------------------------------------
(* Punctuation *)

StartsComment(s, i) == At(s, i) = SLASH /\ (At(s, i + 1) = SLASH \/ At(s, i + 1) = STAR)

IsPunctAt(s, i) == At(s, i) \in PunctChars /\ ~StartsComment(s, i)

\* ' is punctuation only as the start of a lifetime
LifetimeAt(s, i) ==
  LET e == IdAnyEnd(s, i + 1) IN
  /\ e # 0
  /\ At(s, e) # APOS
  /\ ~(At(s, e) = HASH /\ ~IsRawPrefix(s, i + 1))

---------------------------------------------------------------------------
(* Identifiers as tokens: not the beginning of a (malformed) literal *)

LiteralPrefix(s, i) ==
  LET a == At(s, i)  b == At(s, i + 1)  c == At(s, i + 2) IN
  \/ a = 114 /\ (b = QUOTE \/ (b = HASH /\ (c = QUOTE \/ c = HASH)))
  \/ a = 98  /\ (b = QUOTE \/ b = APOS \/ (b = 114 /\ (c = QUOTE \/ c = HASH)))
  \/ a = 99  /\ (b = QUOTE \/ (b = 114 /\ (c = QUOTE \/ c = HASH)))

---------------------------------------------------------------------------
(* Comments *)

\* <<end of text, where lexing resumes>> of the line starting at i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) ==
  LET c == At(s, i) IN
  IF c = EOF \/ c = LF THEN <<i, i>>
  ELSE IF c = CR /\ At(s, i + 1) = LF THEN <<i, i + 1>>
  ELSE IF i + Stride <= Len(s) /\ \A k \in i .. i + Stride : s[k] # LF /\ ~(s[k] = CR /\ At(s, k + 1) = LF) THEN LineEnd(s, i + Stride + 1)
  ELSE LineEnd(s, i + 1)

\* Inside a block comment at p[1] with p[2] comments open: one step further; <<0, 0>> at the end of the text.
BlockStep(s, p) ==
  LET i == p[1]  c == At(s, i) IN
  IF c = EOF THEN <<0, 0>>
  ELSE IF c = SLASH /\ At(s, i + 1) = STAR THEN <<i + 2, p[2] + 1>>
  ELSE IF c = STAR /\ At(s, i + 1) = SLASH THEN <<i + 2, p[2] - 1>>
  ELSE IF i + Stride <= Len(s) /\ \A k \in i .. i + Stride : s[k] # SLASH /\ s[k] # STAR THEN <<i + Stride + 1, p[2]>>
  ELSE <<i + 1, p[2]>>

\* up to n steps, halved so that the recursion stays shallow
RECURSIVE BlockSteps(_, _, _)
BlockSteps(s, p, n) ==
  IF p[2] = 0 THEN p
  ELSE IF n = 1 THEN BlockStep(s, p)
  ELSE LET half == BlockSteps(s, p, n \div 2) IN BlockSteps(s, half, n - (n \div 2))

\* position after the block comment; i is inside it, depth comments are open; 0 if it does not end
BlockEnd(s, i, depth) == BlockSteps(s, <<i, depth>>, Len(s) + 2 - i)[1]

\* "line-outer" "line-inner" "line" "block-outer" "block-inner" "block" "none"
CommentKind(s, i) ==
  IF ~StartsComment(s, i) THEN "none"
  ELSE LET c == At(s, i + 2)  d == At(s, i + 3) IN
  IF At(s, i + 1) = SLASH
  THEN IF c = BANG THEN "line-inner"
       ELSE IF c = SLASH /\ d # SLASH THEN "line-outer" ELSE "line"
  ELSE IF c = BANG THEN "block-inner"
       ELSE IF c = STAR /\ d # STAR /\ d # SLASH THEN "block-outer" ELSE "block"

\* Skip whitespace and ordinary comments.  Stops at an unterminated comment.
\* One piece of it: the position after it, or i itself when there is none.
TriviaStep(s, i) ==
  LET c == At(s, i) IN
  IF c = EOF THEN i
  ELSE IF IsWhite(c) THEN IF i + Stride <= Len(s) /\ \A k \in i .. i + Stride : IsWhite(s[k]) THEN i + Stride + 1 ELSE i + 1
  ELSE IF c # SLASH THEN i
  ELSE LET k == CommentKind(s, i) IN
       CASE k = "line" -> LineEnd(s, i)[2]
         [] k = "block" -> LET e == BlockEnd(s, i + 2, 1) IN IF e = 0 THEN i ELSE e
         [] OTHER -> i

\* <<position, whether that is the end of the trivia>>: up to 2^d steps (shallow recursion)
RECURSIVE TriviaSteps(_, _, _)
TriviaSteps(s, i, d) ==
  IF d = 0 THEN LET j == TriviaStep(s, i) IN <<j, j = i>>
  ELSE LET l == TriviaSteps(s, i, d - 1) IN IF l[2] THEN l ELSE TriviaSteps(s, l[1], d - 1)
Trivia(s, i) == TriviaSteps(s, i, 20)[1]

BareCr(s, a, b) == \E k \in a .. b - 1 : s[k] = CR /\ ~(k + 1 < b /\ s[k + 1] = LF)

\* Doc comment at i: <<inner, text start, text end, resume>> or <<>>.
Doc(s, i) ==
  LET k == CommentKind(s, i)
      inner == k = "line-inner" \/ k = "block-inner"
      r == CASE k = "line-outer" \/ k = "line-inner" ->
                  LET e == LineEnd(s, i + 3) IN <<inner, i + 3, e[1], e[2]>>
             [] k = "block-outer" \/ k = "block-inner" ->
                  LET e == BlockEnd(s, i + 2, 1)
                  IN IF e = 0 THEN <<>> ELSE <<inner, i + 3, e - 2, e>>
             [] OTHER -> <<>>
  IN IF r = <<>> THEN <<>> ELSE IF BareCr(s, r[2], r[3]) THEN <<>> ELSE r

---------------------------------------------------------------------------
(* The lexer's main loop *)

\* delimiters: 1 () 2 {} 3 []
OpenOf(c)  == CASE c = 40 -> 1 [] c = 123 -> 2 [] c = 91 -> 3 [] OTHER -> 0
CloseOf(c) == CASE c = 41 -> 1 [] c = 125 -> 2 [] c = 93 -> 3 [] OTHER -> 0

\* "(/*ERROR*/)": how rustc prints an expression that failed to expand; kept as one literal
ErrorText == <<40, 47, 42, 69, 82, 82, 79, 82, 42, 47, 41>>
IsErrorAt(s, i) == At(s, i) = 40 /\ At(s, i + 1) = SLASH
                   /\ i + 10 <= Len(s) /\ SubSeq(s, i, i + 10) = ErrorText

\* tokens: [k: "id",  lo, hi]  [k: "pu", ch, joint, lo, hi]  [k: "li", lo, hi]
\*         [k: "op", d, lo]    [k: "cl", d, lo (of group), hi]
\*         [k: "doc", inner, tlo, thi, lo, hi]
Leaf(s, i) ==
  LET l == LitEnd(s, i) IN
  IF l # 0 THEN [k |-> "li", lo |-> i, hi |-> l]
  ELSE LET c == At(s, i) IN
  IF c = APOS THEN IF LifetimeAt(s, i)
                   THEN [k |-> "pu", ch |-> c, joint |-> TRUE, lo |-> i, hi |-> i + 1]
                   ELSE [k |-> "none"]
  ELSE IF IsPunctAt(s, i)
  THEN [k |-> "pu", ch |-> c, joint |-> IsPunctAt(s, i + 1), lo |-> i, hi |-> i + 1]
  ELSE LET e == IF LiteralPrefix(s, i) THEN 0 ELSE IdAnyEnd(s, i) IN
  IF e # 0 THEN [k |-> "id", lo |-> i, hi |-> e]
  ELSE IF IsErrorAt(s, i) THEN [k |-> "li", lo |-> i, hi |-> i + 11]
  ELSE [k |-> "none"]

Fail(cfg, pos) == [cfg EXCEPT !.st = "err", !.at = pos]

LexStep(s, cfg) ==
  LET i == Trivia(s, cfg.i)
      c == At(s, i)
      doc == IF c = SLASH THEN Doc(s, i) ELSE <<>>
  IN
  IF doc # <<>>
  THEN [cfg EXCEPT !.i = doc[4],
                   !.out = Append(@, [k |-> "doc", inner |-> doc[1], tlo |-> doc[2],
                                      thi |-> doc[3], lo |-> i, hi |-> doc[4]])]
  ELSE IF c = EOF
  THEN IF cfg.stk = <<>> THEN [cfg EXCEPT !.st = "ok", !.i = i]
       ELSE Fail(cfg, cfg.stk[Len(cfg.stk)][2])
  ELSE IF OpenOf(c) # 0 /\ ~IsErrorAt(s, i)
  THEN [cfg EXCEPT !.i = i + 1, !.stk = Append(@, <<OpenOf(c), i>>),
                   !.out = Append(@, [k |-> "op", d |-> OpenOf(c), lo |-> i])]
  ELSE IF CloseOf(c) # 0
  THEN IF cfg.stk = <<>> THEN Fail(cfg, i)
       ELSE LET top == cfg.stk[Len(cfg.stk)] IN
            IF top[1] # CloseOf(c) THEN Fail(cfg, i)
            ELSE [cfg EXCEPT !.i = i + 1, !.stk = SubSeq(@, 1, Len(@) - 1),
                             !.out = Append(@, [k |-> "cl", d |-> top[1], lo |-> top[2], hi |-> i + 1])]
  ELSE LET t == Leaf(s, i) IN
       IF t.k = "none" THEN Fail(cfg, i)
       ELSE [cfg EXCEPT !.i = t.hi, !.out = Append(@, t)]

\* a byte order mark is dropped at the very beginning
LexStart(s) == [i |-> IF At(s, 1) = 65279 THEN 2 ELSE 1,
                stk |-> <<>>, out |-> <<>>, st |-> "run", at |-> 0]

\* up to n steps, halved so that the recursion stays shallow
RECURSIVE LexSteps(_, _, _)
LexSteps(s, cfg, n) ==
  IF cfg.st # "run" THEN cfg
  ELSE IF n = 1 THEN LexStep(s, cfg)
  ELSE LET half == LexSteps(s, cfg, n \div 2) IN LexSteps(s, half, n - (n \div 2))

\* every step consumes a character or is the last
LexRun(s, cfg) == LexSteps(s, cfg, Len(s) + 2)

Lex(s) == LexRun(s, LexStart(s))
=============================================================================
