------------------------------ MODULE Trace_Val ------------------------------
(***************************************************************************)
(* Records <<spelling, <<string, byte string, C string value>>>>, each     *)
(* value <<code, units>>: 1 value, 0 wrong kind, 2 unescape error, 3 panic *)
(* (C08).                                                                  *)
(***************************************************************************)
EXTENDS Tokens, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k

Names == <<"string value", "byte string value", "C string value">>
Kinds == <<"str", "byte", "c">>

\* what asking literal s for its value of kind j gives
Value(s, d, j) ==
  IF d.kind = Kinds[j] /\ ~HasSuffix(s, d)
  THEN <<1, IF j = 3 THEN Append(d.val, 0) ELSE d.val>>
  ELSE <<0, <<>>>>

Verdict(r) ==
  IF ~WholeLiteral(r[1]) /\ r[1] # ErrorText /\ ~LiteralFromStr(r[1]) THEN ""   \* not a literal at all: C06, C07
  ELSE LET d == Decode(r[1])
           bad == {j \in 1 .. 3 : r[2][j] # Value(r[1], d, j)}
       IN IF bad = {} THEN ""
          ELSE LET j == CHOOSE j \in bad : \A i \in bad : j <= i IN
               CASE r[2][j][1] = 3 -> "panic"
                 [] r[2][j][1] = 2 -> "unescape error although well-formed"
                 [] r[2][j][1] = 0 -> "reported as wrong kind although right"
                 [] Value(r[1], d, j)[1] = 0 -> "value given although of the wrong kind"
                 [] OTHER -> "wrong value"

Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms ==
  k <= Len(Trace) =>
    LET v == Verdict(Trace[k]) IN v = "" \/ PrintT(<<"MISMATCH", k, v>>)
==============================================================================
