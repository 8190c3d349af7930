------------------------------- MODULE Printer -------------------------------
(***************************************************************************)
(* The canonical text of a token stream (flat form of Tokens.tla), and the *)
(* streams for which that text can be parsed back.                         *)
(***************************************************************************)
EXTENDS Tokens

OpenText(d)  == CASE d = 1 -> <<40>> [] d = 2 -> <<123, 32>> [] d = 3 -> <<91>> [] OTHER -> <<>>
CloseText(d) == CASE d = 1 -> <<41>> [] d = 2 -> <<125>> [] d = 3 -> <<93>> [] OTHER -> <<>>

\* One printing step for token k.  sep: a space is due before the next token.
PrintStep(toks, k, cfg) ==
  LET t == toks[k]
      lead == IF cfg.sep THEN <<SP>> ELSE <<>>
  IN CASE t[1] = 1 \/ t[1] = 3 -> [sep |-> TRUE, out |-> cfg.out \o lead \o Tail(t)]
       [] t[1] = 2 -> [sep |-> t[3] = 0, out |-> cfg.out \o lead \o <<t[2]>>]
       [] t[1] = 4 -> [sep |-> FALSE, out |-> cfg.out \o lead \o OpenText(t[2])]
       [] t[1] = 5 -> [sep |-> TRUE,
                       out |-> cfg.out \o (IF t[2] = 2 /\ toks[k - 1][1] # 4 THEN <<SP>> ELSE <<>>)
                                       \o CloseText(t[2])]

\* tokens a .. b (halved: shallow recursion)
RECURSIVE PrintBetween(_, _, _, _)
PrintBetween(toks, a, b, cfg) ==
  IF a > b THEN cfg
  ELSE IF a = b THEN PrintStep(toks, a, cfg)
  ELSE LET m == (a + b) \div 2
           half == PrintBetween(toks, a, m, cfg)
       IN PrintBetween(toks, m + 1, b, half)

PrintText(toks) == PrintBetween(toks, 1, Len(toks), [sep |-> FALSE, out |-> <<>>]).out

---------------------------------------------------------------------------
(* Streams whose text denotes them: joint punctuation is glued to something *)
(* it can be glued to, a quote starts a lifetime, nothing is invisible.     *)

GluesTo(t, n) ==            \* t: joint punctuation, n: the token after it
  IF t[2] = APOS THEN n[1] = 1
  ELSE \/ n[1] = 2 /\ ~(t[2] = SLASH /\ n[2] \in {SLASH, STAR})
       \/ n[1] = 3 /\ n[2] = APOS            \* a character literal starts like punctuation

TokOk(toks, k) ==
  LET t == toks[k] IN
  CASE t[1] = 1 -> IdAnyEnd(Tail(t), 1) = Len(t)
    [] t[1] = 2 -> /\ t[2] \in PunctChars
                   /\ t[3] = 1 => k < Len(toks) /\ GluesTo(t, toks[k + 1])
                   /\ t[2] = APOS => t[3] = 1
    [] t[1] = 3 -> WholeLiteral(Tail(t)) \/ Tail(t) = ErrorText
    [] OTHER -> t[2] # 0

WellFormed(toks) == \A k \in 1 .. Len(toks) : TokOk(toks, k)

\* The tokens that the lexer specification gives for a text without doc comments
\* (<<>> on error, which no well-formed non-empty stream is mistaken for).
Relex(s) == LET fin == Lex(s) IN IF fin.st = "ok" THEN ExpandAll(s, fin.out) ELSE <<<<0>>>>

\* Design-level round trip
RoundTrips(toks) == Relex(PrintText(toks)) = toks
==============================================================================
