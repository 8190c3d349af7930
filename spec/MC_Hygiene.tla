------------------------------ MODULE MC_Hygiene ------------------------------
(***************************************************************************)
(* Bounded model of Hygiene: sites and input tokens with few locations and *)
(* contexts.  One script of operations is printed for every transition, to *)
(* be executed inside a real macro.                                        *)
(***************************************************************************)
EXTENDS Hygiene, TLC, Json
CONSTANTS MaxSpans, Emit

\* the three sites share their location; input tokens stand elsewhere, written by the user
\* (context 0) or by a declarative macro (context 1)
Base == << <<0, 2>>, <<0, 3>>, <<0, 4>>, <<1, 0>>, <<2, 1>> >>
Picks == 4 .. 5

VARIABLES spans, hist
vars == <<spans, hist>>

Ops == {<<CallSite>>, <<MixedSite>>} \cup {<<4, j>> : j \in Picks} \cup {<<9, 0>>} \cup {<<5, j>> : j \in {2, 5}}
       \cup {<<op, x, y>> : op \in {6, 7, 10}, x \in 1 .. Len(spans), y \in 1 .. Len(spans)}
       \cup {<<8, x, 0>> : x \in 1 .. Len(spans)}

Init == spans = <<>> /\ hist = <<>>
Next ==
  /\ Len(spans) < MaxSpans
  /\ \E o \in Ops :
       /\ spans' = Append(spans, Result(Base, spans, o))
       /\ hist' = Append(hist, o)
       /\ IF Emit THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == spans

Held == {spans[j] : j \in 1 .. Len(spans)}
\* nothing is made up
NothingMadeUp == \A s \in Held : /\ \E j \in 1 .. Len(Base) : Loc(s) = Loc(Base[j])
                                 /\ \E j \in 1 .. Len(Base) : Ctx(s) = Ctx(Base[j])
\* what a program can rely on
Laws ==
  \A x \in Held, y \in Held :
    /\ LocatedAt(x, y) = ResolvedAt(y, x)
    /\ ResolvedAt(x, x) = x /\ LocatedAt(x, x) = x
    /\ ResolvedAt(LocatedAt(x, y), y) = y
    /\ LocatedAt(ResolvedAt(x, y), y) = y
    /\ \A z \in Held : ResolvedAt(ResolvedAt(x, y), z) = ResolvedAt(x, z)
    /\ (Loc(x) = Loc(y) /\ Ctx(x) = Ctx(y)) <=> x = y
================================================================================
