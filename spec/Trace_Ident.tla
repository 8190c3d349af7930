----------------------------- MODULE Trace_Ident -----------------------------
(***************************************************************************)
(* <<1, first, last, code>>: what every character of a run does as an      *)
(*   identifier, alone and after "a" (base-3 digits: new, new after a,     *)
(*   new_raw, new_raw after a, lexed, lexed after a, lexed after r#a)      *)
(* <<2, text, new, new_raw, lexed, lexed with r#>> (9: not asked)    (C09) *)
(* Focus 19: <<1, first, last, code>> for Punct::new, alone and joint      *)
(***************************************************************************)
EXTENDS Idents, Json, IOUtils, TLC
CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

Bit(x) == IF x THEN 1 ELSE 0

Code(c) ==
  LET s == IsIdStart(c)  t == IsIdCont(c)
      raw == s /\ c # USCORE
  IN ((((((Bit(s) * 3 + Bit(t)) * 3 + Bit(raw)) * 3 + Bit(t)) * 3 + Bit(s)) * 3 + Bit(t)) * 3) + Bit(t)

PunctCode(c) == Bit(c \in PunctChars) * 4

RunVerdict(r) ==
  IF \A c \in r[2] .. r[3] :
        \/ ~IsScalar(c)
        \/ IF Focus = 19 THEN r[4] = PunctCode(c) ELSE r[4] = Code(c) \/ Unspecified(c)
  THEN "" ELSE "wrong character class"

Unspec(s) == \E i \in 1 .. Len(s) : Unspecified(s[i])

StrVerdict(r) ==
  LET s == r[2] IN
  IF Unspec(s) THEN ""
  ELSE IF r[3] # IF ValidIdent(s) THEN <<1, s>> ELSE <<0, <<>>>> THEN "Ident::new"
  ELSE IF r[4] # IF ValidRaw(s) THEN <<1, RawText(s)>> ELSE <<0, <<>>>> THEN "Ident::new_raw"
  ELSE IF r[5] \notin {9, Bit(LexesAsIdent(s))} THEN "lexing an identifier"
  ELSE IF r[6] \notin {9, Bit(ValidRaw(s))} THEN "lexing a raw identifier"
  ELSE ""

Verdict(r) == IF r[1] = 1 THEN RunVerdict(r) ELSE StrVerdict(r)

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
==============================================================================
