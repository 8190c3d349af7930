------------------------------ MODULE MC_Print ------------------------------
(* Exhaustive: every token sequence up to MaxLen over a small token alphabet, built one token at
   a time with balanced groups.  Well-formed streams must survive printing and lexing. *)
EXTENDS Printer, TLC
CONSTANTS MaxLen
VARIABLES toks, open

Leaves == { IdTok(<<97>>), IdTok(<<114>>), IdTok(<<98>>), IdTok(<<114, 35, 97>>), IdTok(<<95>>),
            LiTok(<<49>>), LiTok(<<49, 46>>), LiTok(<<34, 34>>), LiTok(<<39, 97, 39>>), LiTok(ErrorText) }
        \cup { <<2, c, j>> : c \in {39, 35, 47, 42, 43, 46, 33}, j \in {0, 1} }

Init == toks = <<>> /\ open = <<>>
AddLeaf  == \E t \in Leaves : toks' = Append(toks, t) /\ UNCHANGED open
Open     == \E d \in 0 .. 3 : toks' = Append(toks, OpTok(d)) /\ open' = Append(open, d)
Close    == open # <<>> /\ toks' = Append(toks, ClTok(open[Len(open)])) /\ open' = SubSeq(open, 1, Len(open) - 1)
Next == (Len(toks) + Len(open) < MaxLen /\ (AddLeaf \/ Open)) \/ Close

RoundTrip == (open = <<>> /\ WellFormed(toks)) => RoundTrips(toks)
\* not vacuous: also the converse on this alphabet (without invisible groups) -- what is not
\* well formed does not come back
Sharp == (open = <<>> /\ ~WellFormed(toks)) => ~RoundTrips(toks)
=============================================================================
