------------------------------- MODULE MC_Deferred -------------------------------
(***************************************************************************)
(* Inside a macro a stream is the compiler's stream and the tokens         *)
(* appended since, not yet handed over.  Every operation keeps             *)
(*        abstract value = stream \o extra                                 *)
(* and what the compiler is given when a stream is handed over is the      *)
(* abstract value.  One script of TokenStore operations is printed for     *)
(* every transition, to be executed inside a real macro.                   *)
(* Slots 1 .. N hold streams, slot N + 1 the token appended next.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MaxTok, MaxLen, MaxOps, Emit
VARIABLES h,        \* slot -> <<>> or <<stream, extra>>
          abs,      \* slot -> <<>> or <<sequence>>
          given,    \* what was last handed to the compiler, and what should have been
          tok, hist, n
vars == <<h, abs, given, tok>>
Slots == 1 .. N
None == <<>>
Full(s) == h[s][1] \o h[s][2]
Flushed(s) == <<Full(s), <<>> >>

Init == h = [s \in Slots |-> None] /\ abs = [s \in Slots |-> None] /\ given = <<None, None>> /\ tok = 0 /\ hist = <<>> /\ n = 0

Do(ops, hh, aa, gg) ==
  /\ n < MaxOps /\ n' = n + 1
  /\ h' = hh /\ abs' = aa /\ given' = gg
  /\ hist' = hist \o ops
  /\ IF Emit THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
Is(s) == h[s] # None
Keep == given

Next ==
  \E d \in Slots :
    \/ /\ ~Is(d) /\ UNCHANGED tok
       /\ Do(<< <<1, d>> >>, [h EXCEPT ![d] = << <<>>, <<>> >>], [abs EXCEPT ![d] = << <<>> >>], Keep)
    \/ /\ Is(d) /\ tok < MaxTok /\ Len(Full(d)) < MaxLen /\ tok' = tok + 1
       \* appending single tokens is deferred
       /\ Do(<< <<21, N + 1, 1, 97 + tok>>, <<5, d, N + 1>> >>,
             [h EXCEPT ![d] = <<h[d][1], Append(h[d][2], tok)>>], [abs EXCEPT ![d] = <<Append(abs[d][1], tok)>>], Keep)
    \/ /\ ~Is(d) /\ tok < MaxTok /\ tok' = tok + 1
       \* a stream of one token is the compiler's at once
       /\ Do(<< <<21, N + 1, 1, 97 + tok>>, <<10, d, N + 1>> >>,
             [h EXCEPT ![d] = << <<tok>>, <<>> >>], [abs EXCEPT ![d] = << <<tok>> >>], Keep)
    \/ /\ Is(d) /\ UNCHANGED tok      \* handed over, printed, asked whether empty, iterated
       /\ \/ Do(<< <<34, d>> >>, h, abs, <<Full(d), abs[d][1]>>)
          \/ Do(<< <<27, d>> >>, h, abs, <<IF h[d][1] = <<>> /\ h[d][2] = <<>> THEN <<>> ELSE <<0>>, IF abs[d][1] = <<>> THEN <<>> ELSE <<0>> >>)
          \/ Do(<< <<36, d>> >>, h, abs, <<Full(d), abs[d][1]>>)
          \/ Do(<< <<14, d>>, <<16, d>> >>, [h EXCEPT ![d] = Flushed(d)], abs, <<Full(d), abs[d][1]>>)
    \/ \E s \in Slots \ {d} : UNCHANGED tok /\ Is(s) /\
       \/ /\ ~Is(d)
          /\ \/ Do(<< <<3, d, s>> >>, [h EXCEPT ![d] = h[s]], [abs EXCEPT ![d] = abs[s]], Keep)
             \/ Do(<< <<32, d, s>> >>, [h EXCEPT ![d] = Flushed(s)], [abs EXCEPT ![d] = abs[s]], <<Full(s), abs[s][1]>>)
             \/ Do(<< <<17, N + 1, s, 1>>, <<19, d, N + 1>> >>, [h EXCEPT ![d] = Flushed(s), ![s] = None], [abs EXCEPT ![d] = abs[s], ![s] = None], <<Full(s), abs[s][1]>>)
       \/ /\ Is(d) /\ Len(Full(d)) + Len(Full(s)) <= MaxLen
          /\ \/ Do(<< <<7, d, s>> >>, [h EXCEPT ![d] = <<Full(d) \o Full(s), <<>> >>, ![s] = None], [abs EXCEPT ![d] = <<abs[d][1] \o abs[s][1]>>, ![s] = None], Keep)
             \/ Do(<< <<8, d, s>> >>, [h EXCEPT ![d] = <<Full(d) \o Full(s), <<>> >>], [abs EXCEPT ![d] = <<abs[d][1] \o abs[s][1]>>], Keep)
             \* the first stream is kept and the others are appended to it
             \/ Do(<< <<13, d, d, s>> >>, [h EXCEPT ![d] = <<Full(d) \o Full(s), <<>> >>, ![s] = None], [abs EXCEPT ![d] = <<abs[d][1] \o abs[s][1]>>, ![s] = None], Keep)

Refines == \A s \in Slots : /\ Is(s) <=> abs[s] # None
                            /\ Is(s) => abs[s] = <<Full(s)>>
Handed == given[1] = given[2]
View == <<h, abs, tok>>
Spec == Init /\ [][Next]_<<vars, hist, n>>
===================================================================================
