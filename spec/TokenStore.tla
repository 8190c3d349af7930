------------------------------ MODULE TokenStore ------------------------------
(***************************************************************************)
(* What programs see of streams, iterators and token trees: a fixed number *)
(* of slots, each holding an independent value.                            *)
(*                                                                         *)
(*   <<>>         nothing                                                  *)
(*   <<1, seq>>   a token stream: a sequence of trees                      *)
(*   <<2, seq>>   an iterator: the trees still to come                     *)
(*   <<3, tree>>  a single token tree                                      *)
(*                                                                         *)
(* Trees: <<1, span, text>> identifier   <<2, span, ch, joint>> punct      *)
(*        <<3, span, text>> literal                                        *)
(*        <<4, span, delimiter, content, open span, close span>> group     *)
(* Spans: <<file, lo, hi>>; <<0, 0, 0>> is the call site.                  *)
(*                                                                         *)
(* Operations are sequences of integers <<op, arguments...>>; see Apply.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Narrow      \* Narrow(span, end): span of the first (0) / last (1) delimiter of a group set to span
                     \* TRUE: the first / last byte of the span; FALSE: the span itself (compiler)

CallSiteSpan == <<0, 0, 0>>

OpenSpan(sp)  == IF Narrow /\ sp[3] > sp[2] THEN <<sp[1], sp[2], sp[2] + 1>> ELSE sp
CloseSpan(sp) == IF Narrow /\ sp[3] > sp[2] THEN <<sp[1], sp[3] - 1, sp[3]>> ELSE sp

MINUSCH == 45

\* the same tree at another place; the content of a group stays where it is
SetSpan(t, sp) == IF t[1] = 4 THEN <<4, sp, t[3], t[4], OpenSpan(sp), CloseSpan(sp)>>
                  ELSE [t EXCEPT ![2] = sp]

\* what putting a tree into a stream puts there
Pushed(t) ==
  IF t[1] = 3 /\ Len(t[3]) > 0 /\ t[3][1] = MINUSCH
  THEN << <<2, t[2], MINUSCH, 0>>, <<3, t[2], Tail(t[3])>> >>
  ELSE <<t>>

RECURSIVE PushAll(_, _)
PushAll(ts, i) == IF i > Len(ts) THEN <<>> ELSE Pushed(ts[i]) \o PushAll(ts, i + 1)

RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)

Stream(q) == <<1, q>>
Iter(q)   == <<2, q>>
Tree(t)   == <<3, t>>
IsStream(v) == v # <<>> /\ v[1] = 1
IsIter(v)   == v # <<>> /\ v[1] = 2
IsTree(v)   == v # <<>> /\ v[1] = 3
IsGroup(v)  == IsTree(v) /\ v[2][1] = 4

Values(slots, idx) == [j \in 1 .. Len(idx) |-> slots[idx[j]][2]]

\* tokens put together with the compiler's own interface
Piece(k) ==
  CASE k = 0 -> <<1, CallSiteSpan, <<109>>>>
    [] k = 1 -> <<2, CallSiteSpan, 59, 0>>
    [] k = 2 -> <<3, CallSiteSpan, <<55, 117, 56>>>>
    [] k = 3 -> <<4, CallSiteSpan, 3, << <<1, CallSiteSpan, <<110>>>> >>, CallSiteSpan, CallSiteSpan>>
    [] OTHER -> <<2, CallSiteSpan, 35, 1>>
Composed(ks) == [j \in 1 .. Len(ks) |-> Piece(ks[j])]

\* operations that differ in how the program writes them, not in what they do
Base(o) ==
  CASE o[1] = 45 -> <<5>> \o Tail(o)              \* extend by a group, an identifier, ... of its own type
    [] o[1] \in {46, 47} -> <<6>> \o Tail(o)      \* by several of one type; by an iterator of unknown length
    [] o[1] = 48 -> <<11>> \o Tail(o)
    [] o[1] = 49 -> <<9>> \o Tail(o)
    [] o[1] = 50 -> <<16>> \o Tail(o)             \* token by token
    [] OTHER -> o

\* When the caller's iterator panics, the stream is left with some of the tokens that came before
Attempt(slots, o) == slots[o[2]][2] \o PushAll(Values(slots, SubSeq(o, 3, Len(o))), 1)
Interrupted(slots, o, n) == o[1] = 53 => n >= Len(slots[o[2]][2]) /\ n <= Len(Attempt(slots, o))

\* Slots after operation o.  pal: the spans the program has at hand; made: the value of a tree or
\* stream whose content the program got from outside (a parse).
Apply(slots, oo, pal, made) ==
  LET o == Base(oo)
      op == o[1]
      d == IF Len(o) > 1 THEN o[2] ELSE 0
      Set(v) == [slots EXCEPT ![d] = v]
      Move(s, v) == [slots EXCEPT ![s] = <<>>, ![d] = v]       \* consumes slot s
  IN
  CASE op = 1  -> Set(Stream(<<>>))                                         \* new
    [] op = 2  -> Set(made)                                                 \* parse
    [] op = 3  -> Set(slots[o[3]])                                          \* clone
    [] op = 4  -> Set(<<>>)                                                 \* drop
    [] op = 5  -> Set(Stream(slots[d][2] \o Pushed(slots[o[3]][2])))        \* extend by a tree
    [] op = 6  -> Set(Stream(slots[d][2] \o PushAll(Values(slots, SubSeq(o, 3, Len(o))), 1)))  \* by trees
    [] op = 7  -> Move(o[3], Stream(slots[d][2] \o slots[o[3]][2]))         \* by a stream, consumed
    [] op = 8  -> Set(Stream(slots[d][2] \o slots[o[3]][2]))                \* by a clone of a stream
    [] op = 9  -> Set(Stream(slots[d][2] \o Concat(Values(slots, SubSeq(o, 3, Len(o))), 1)))   \* by streams
    [] op = 10 -> Set(Stream(Pushed(slots[o[3]][2])))                       \* stream from a tree
    [] op = 11 -> Set(Stream(PushAll(Values(slots, SubSeq(o, 3, Len(o))), 1)))                 \* collect trees
    [] op = 12 -> Set(Stream(Concat(Values(slots, SubSeq(o, 3, Len(o))), 1)))                  \* collect streams
    [] op = 13 -> [j \in 1 .. Len(slots) |->                                \* collect streams, consumed
                     IF j = d THEN Stream(Concat(Values(slots, SubSeq(o, 3, Len(o))), 1))
                     ELSE IF \E x \in 3 .. Len(o) : o[x] = j THEN <<>> ELSE slots[j]]
    [] op = 14 -> Set(Iter(slots[d][2]))                                    \* into_iter
    [] op = 15 -> LET q == slots[o[3]][2]                                   \* next
                  IN IF q = <<>> THEN Set(<<>>)
                     ELSE [slots EXCEPT ![o[3]] = Iter(Tail(q)), ![d] = Tree(q[1])]
    [] op = 16 -> Set(Stream(slots[d][2]))                                  \* collect an iterator
    [] op = 17 -> Move(o[3], Tree(<<4, CallSiteSpan, o[4], slots[o[3]][2], CallSiteSpan, CallSiteSpan>>))
    [] op = 18 -> Set(Tree(<<4, CallSiteSpan, o[4], slots[o[3]][2], CallSiteSpan, CallSiteSpan>>))
    [] op = 19 -> Set(Stream(slots[o[3]][2][4]))                            \* content of a group
    [] op = 20 -> Set(Tree(SetSpan(slots[d][2], pal[o[3]])))                \* set_span
    [] op = 21 -> Set(Tree(<<1, pal[o[3]], SubSeq(o, 4, Len(o))>>))         \* identifier
    [] op = 22 -> Set(Tree(<<1, pal[o[3]], <<114, 35>> \o SubSeq(o, 4, Len(o))>>))   \* raw identifier
    [] op = 23 -> Set(Tree(<<2, CallSiteSpan, o[3], o[4]>>))                \* punctuation
    [] op = 24 -> Set(Tree(<<3, CallSiteSpan, SubSeq(o, 3, Len(o))>>))      \* literal from a value
    [] op = 25 -> Set(made)                                                 \* literal from text
    [] op = 26 -> Move(o[3], Stream(slots[d][2] \o slots[o[3]][2]))         \* extend by an iterator, consumed
    [] op = 32 -> Set(slots[o[3]])                                          \* to the compiler's stream and back
    [] op = 37 -> Set(Stream(Composed(SubSeq(o, 4, Len(o)))))               \* from a stream of the compiler's making
    [] op = 38 -> Set(made)                                                 \* the macro's input
    [] op \in {34, 36, 54} -> slots                                             \* seen through the compiler's interface, printed
    [] op \in {41, 42, 43, 44} -> slots                                     \* force, unforce, compare identifiers, combine spans
    [] op \in {27, 28, 29, 40} -> slots                                     \* is_empty, size_hint, print, look
    [] op = 51 -> Set(<<>>)                                                 \* count
    [] op = 52 -> LET q == slots[o[3]][2]                                   \* last
                  IN Move(o[3], IF q = <<>> THEN <<>> ELSE Tree(q[Len(q)]))
    [] op = 53 -> Set(Stream(SubSeq(Attempt(slots, o), 1, made)))           \* extend by trees; the iterator then panics
    [] op = 30 -> [j \in 1 .. Len(slots) |-> <<>>]                          \* drop everything
    [] op = 31 -> LET q == slots[o[3]][2]  n == o[4]                        \* nth
                  IN IF Len(q) <= n THEN [slots EXCEPT ![o[3]] = Iter(<<>>), ![d] = <<>>]
                     ELSE [slots EXCEPT ![o[3]] = Iter(SubSeq(q, n + 2, Len(q))), ![d] = Tree(q[n + 1])]

\* The recorded form of a value: itself or, when groups nest deeply, <<10 + kind, flat>> where flat lists the
\* trees with groups as <<4, span, delimiter, open span, close span>> ... <<5>>
RECURSIVE FlatTrees(_, _, _)
FlatTree(t) == IF t[1] # 4 THEN <<t>> ELSE << <<4, t[2], t[3], t[5], t[6]>> >> \o FlatTrees(t[4], 1, Len(t[4])) \o << <<5>> >>
FlatTrees(ts, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN FlatTree(ts[a])
  ELSE LET m == (a + b) \div 2 IN FlatTrees(ts, a, m) \o FlatTrees(ts, m + 1, b)
Recorded(v, rec) ==
  IF rec # <<>> /\ rec[1] > 10
  THEN v # <<>> /\ v[1] = rec[1] - 10 /\ rec[2] = (IF v[1] = 3 THEN FlatTree(v[2]) ELSE FlatTrees(v[2], 1, Len(v[2])))
  ELSE v = rec

\* what the tokens are called, delimiters included
Delimiters(d) == CASE d = 1 -> << <<40>>, <<41>> >> [] d = 2 -> << <<123>>, <<125>> >> [] d = 3 -> << <<91>>, <<93>> >> [] OTHER -> << <<>>, <<>> >>
RECURSIVE Spellings(_, _, _)
Spelling(t) == CASE t[1] \in {1, 3} -> <<t[3]>>
                 [] t[1] = 2 -> << <<t[3]>> >>
                 [] OTHER -> <<Delimiters(t[3])[1]>> \o Spellings(t[4], 1, Len(t[4])) \o <<Delimiters(t[3])[2]>>
Spellings(ts, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN Spelling(ts[a])
  ELSE LET m == (a + b) \div 2 IN Spellings(ts, a, m) \o Spellings(ts, m + 1, b)

\* the answers operations give besides changing slots
Hint(n, r) == r[1] <= n /\ (r[2] = -1 \/ n <= r[2])

AnswerOk(slots, o, r) ==
  CASE o[1] = 27 -> r = <<IF slots[o[2]][2] = <<>> THEN 1 ELSE 0>>
    [] o[1] = 28 -> Hint(Len(slots[o[2]][2]), r)
    [] o[1] = 51 -> r = <<Len(slots[o[2]][2])>>
    [] o[1] = 43 -> r = <<IF slots[o[2]][2][3] = slots[o[3]][2][3] THEN 1 ELSE 0>>
    [] o[1] = 34 -> Recorded(slots[o[2]], r[1])    \* the compiler sees the same tokens
    [] o[1] = 36 -> r = <<1, 1>>                   \* prints as the compiler prints the same tokens
    [] o[1] = 54 -> r = <<>> \/ r = <<Spellings(slots[o[2]][2], 1, Len(slots[o[2]][2]))>>
    [] o[1] = 30 -> r = <<0>>                      \* nothing stays allocated
    [] OTHER -> TRUE
===============================================================================
