------------------------------ MODULE Trace_Config ------------------------------
(***************************************************************************)
(* One program in several build configurations (C20).  No specification of *)
(* this library's behaviour has the configuration as a parameter: the      *)
(* observations of a program are a function of its input.  Records         *)
(*   <<mode, block, <<d1, .., dn>>>>                                       *)
(* give, for a block of a mode's observations, a digest of what each       *)
(* configuration produced.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Same(ds) == \A c \in 1 .. Len(ds) : ds[c] = ds[1]
Init == k = 1
Next == k <= Len(Trace) /\ k' = k + 1
Conforms == k <= Len(Trace) => Same(Trace[k][3]) \/ PrintT(<<"MISMATCH", k, "configurations disagree">>)
==================================================================================
