------------------------------ MODULE Trace_Ctor ------------------------------
(***************************************************************************)
(* Literals built from values (C07).                                       *)
(*  <<1, <<<<chars, text>>...>>>> strings   <<2, ..>> characters           *)
(*  <<3, ..>> byte characters  <<4, ..>> byte strings  <<5, ..>> C strings *)
(*  <<6, type, suffixed, negative, magnitude, text, tokens>>               *)
(*  <<7, width, suffixed, bits, status, text, tokens>>                     *)
(***************************************************************************)
EXTENDS Numbers, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

AsTokens(s) == IF s[1] = MINUS THEN <<PuTok(MINUS, FALSE), LiTok(Tail(s))>> ELSE <<LiTok(s)>>

KindName == <<"str", "char", "bytechar", "byte", "c">>

BatchVerdict(r) ==
  LET one(x) == Denotes(x[2], KindName[r[1]], IF r[1] \in {2, 3} THEN <<x[1]>> ELSE x[1])
      bad == {j \in 1 .. Len(r[2]) : ~one(r[2][j])}
  IN IF bad = {} THEN "" ELSE "does not denote its argument (" \o KindName[r[1]] \o ")"

\* t without sign, and whether the sign is as wanted
Unsigned(t) == IF Len(t) > 0 /\ t[1] = MINUS THEN Tail(t) ELSE t
Neg(t) == Len(t) > 0 /\ t[1] = MINUS

IntVerdict(r) ==
  LET t == Unsigned(r[6])
      v == IntValue(t)
      sfx == IF r[3] = 1 THEN r[2] ELSE <<>>
  IN IF r[6] = <<>> THEN "panic"
     ELSE IF ~v[1] \/ NumberEnd(t, 1) # Len(t) + 1 THEN "not an integer literal"
     ELSE IF SubSeq(t, v[3], Len(t)) # sfx THEN "wrong suffix"
     ELSE IF Neg(r[6]) # (r[4] = 1) \/ v[2] # BytesValue(r[5]) THEN "wrong integer value"
     ELSE IF r[7] # AsTokens(r[6]) THEN "wrong tokens in a stream"
     ELSE ""

SuffixName(w) == IF w = 64 THEN <<102, 54, 52>> ELSE <<102, 51, 50>>

FloatVerdict(r) ==
  LET f == IF r[2] = 64 THEN Float64(r[4]) ELSE Float32(r[4])
      t == Unsigned(r[6])
      fe == FloatDigitsEnd(t, 1)
      \* with a suffix, an integer spelling is fine too
      e == IF fe # 0 THEN fe ELSE IF r[3] = 1 THEN DecRun(t, 1) ELSE 0
      dv == DecValue(t, e)
  IN IF ~f.finite THEN IF r[5] = 2 THEN "" ELSE "non-finite float accepted"
     ELSE IF r[5] # 1 THEN "finite float refused"
     ELSE IF e = 0 \/ NumberEnd(t, 1) # Len(t) + 1 \/ ~IsDigit(At(t, 1)) THEN "not a float literal"
     ELSE IF SubSeq(t, e, Len(t)) # (IF r[3] = 1 THEN SuffixName(r[2]) ELSE <<>>) THEN "wrong suffix"
     ELSE IF Neg(r[6]) # f.neg THEN "wrong sign"
     ELSE IF ~RoundsTo(Trim(dv[1]), dv[2], f.M, f.e, f.even, f.low) THEN "wrong float value"
     ELSE IF r[7] # AsTokens(r[6]) THEN "wrong tokens in a stream"
     ELSE ""

Verdict(r) == CASE r[1] \in 1 .. 5 -> BatchVerdict(r) [] r[1] = 6 -> IntVerdict(r) [] OTHER -> FloatVerdict(r)

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
===============================================================================
