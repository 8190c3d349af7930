------------------------------ MODULE Trace_Mixed ------------------------------
(***************************************************************************)
(* Histories inside a macro in which the implementation is switched while  *)
(* objects live on (C17).  Events as in Trace_Store; status 3 is the       *)
(* "compiler/fallback mismatch" panic, after which the program drops       *)
(* everything.  tag[s]: the implementations the value of slot s involves   *)
(* (1 fallback, 2 compiler).  An operation that involves only one          *)
(* implementation must do what it does; one that involves both either does *)
(* what it does or is the mismatch panic.                                  *)
(***************************************************************************)
EXTENDS TokenStore, Json, IOUtils, TLC
CONSTANT CompilerSpans       \* spans 1 .. CompilerSpans of the palette are the compiler's
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, slots, tag, mode, bad

Init == k = 1 /\ slots = <<>> /\ tag = <<>> /\ mode = 2 /\ bad = FALSE
Made(e) == IF e[4] = <<>> THEN <<>> ELSE e[4][1]
SpanTag(j) == IF j <= CompilerSpans THEN 2 ELSE 1

Tags(idx) == UNION {tag[idx[j]] : j \in 1 .. Len(idx)}

\* implementations involved in operation o
Involved(oo) ==
  LET o == Base(oo)  op == o[1]  rest == SubSeq(o, 3, Len(o)) IN
  CASE op \in {1, 2, 23, 24, 25} -> {mode}
    [] op \in {21, 22} -> {SpanTag(o[3])}
    [] op \in {3, 15, 19, 31, 52} -> tag[o[3]]
    [] op \in {5, 7, 8, 26, 43} -> tag[o[2]] \union tag[o[3]]
    [] op \in {6, 9} -> tag[o[2]] \union Tags(rest)
    [] op = 10 -> {mode} \union tag[o[3]]
    [] op = 11 -> {mode} \union Tags(rest)
    [] op \in {12, 13} -> IF rest = <<>> THEN {mode} ELSE Tags(rest)
    [] op \in {14, 27, 28, 29, 51, 54} -> tag[o[2]]
    [] op = 16 -> {mode} \union tag[o[2]]
    [] op \in {17, 18} -> tag[o[3]]
    [] op = 20 -> tag[o[2]] \union {SpanTag(o[3])}
    [] op = 44 -> IF o[4] \in {0, 1} THEN {SpanTag(o[2]), SpanTag(o[3])} ELSE {}
    [] OTHER -> {}

\* spans of one implementation combine to spans of it; those of different ones have nothing in common
SpansOk(o, r) ==
  o[1] = 44 => LET x == SpanTag(o[2])  y == SpanTag(o[3]) IN
               IF o[4] = 3 THEN r = <<x>>
               ELSE IF x # y THEN r = <<0>>
               ELSE IF o[4] = 2 THEN r \in {<<0>>, <<x>>}
               ELSE r = <<x>>

NewTag(o, new, inv) ==
  [s \in 1 .. Len(new) |-> IF new[s] = <<>> THEN {} ELSE IF new[s] # slots[s] \/ (Len(o) > 1 /\ o[2] = s /\ o[1] \notin {27, 28, 29, 43, 44, 54}) THEN inv \union (IF o[1] \in {15, 31} /\ o[3] = s THEN tag[s] ELSE {}) ELSE tag[s]]

LookOk(e, old, new) ==
  CASE e[5] = 0 -> TRUE
    [] e[5] = 1 -> /\ \A c \in 1 .. Len(e[6]) : new[e[6][c][1]] = e[6][c][2]
                   /\ \A s \in 1 .. Len(new) :
                        new[s] = old[s] \/ \E c \in 1 .. Len(e[6]) : e[6][c][1] = s
    [] OTHER -> \A s \in 1 .. Len(new) : new[s] = e[6][s][2]

Complain(why) == PrintT(<<"MISMATCH", k, why>>)
Stay == UNCHANGED <<slots, tag, mode>>

Step(e) ==
  LET o == e[1]  inv == Involved(o) IN
  CASE e[2] = 2 -> Complain("panic") /\ bad' = TRUE /\ Stay
    [] e[2] = 3 -> IF inv # {1, 2} THEN Complain("mismatch although one implementation only") /\ bad' = TRUE /\ Stay
                   ELSE LET new == [j \in 1 .. Len(slots) |-> <<>>] IN
                        /\ slots' = new
                        /\ tag' = [j \in 1 .. Len(slots) |-> {}]
                        /\ UNCHANGED mode
                        /\ IF LookOk(e, slots, new) THEN bad' = FALSE ELSE bad' = TRUE /\ Complain("wrong value observed")
    [] OTHER ->
       LET new == Apply(slots, o, <<CallSiteSpan, CallSiteSpan, CallSiteSpan, CallSiteSpan, CallSiteSpan>>, Made(e)) IN
       /\ slots' = new
       /\ tag' = NewTag(o, new, inv)
       /\ mode' = (IF o[1] = 41 THEN 1 ELSE IF o[1] = 42 THEN 2 ELSE mode)
       /\ IF ~AnswerOk(slots, o, e[3]) \/ ~SpansOk(o, e[3]) THEN Complain("wrong answer") /\ bad' = TRUE
          ELSE IF ~LookOk(e, slots, new) THEN Complain("wrong value observed") /\ bad' = TRUE
          ELSE bad' = FALSE

Next ==
  /\ k <= Len(Trace)
  /\ k' = k + 1
  /\ LET e == Trace[k] IN
     IF e[1][1] = 0 THEN slots' = [j \in 1 .. e[2] |-> <<>>] /\ tag' = [j \in 1 .. e[2] |-> {}] /\ mode' = 2 /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<slots, tag, mode, bad>>
     ELSE Step(e)
================================================================================
