-------------------------------- MODULE Hygiene --------------------------------
(***************************************************************************)
(* Spans inside a procedural macro (C23).  A span of the compiler is a     *)
(* pair: where it stands, and the context its names are resolved in.  The  *)
(* two are independent; the library passes both on and never makes up      *)
(* either.                                                                 *)
(*                                                                         *)
(* base: what the compiler itself says are the call site, the mixed site,  *)
(* the definition site, and the spans of the tokens the macro was given.   *)
(* spans: the spans the program holds, in the order it got them.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Loc(s) == s[1]
Ctx(s) == s[2]
ResolvedAt(x, y) == <<Loc(x), Ctx(y)>>
LocatedAt(x, y) == <<Loc(y), Ctx(x)>>

CallSite == 1
MixedSite == 2
DefSite == 3

(* Operations, each giving the program one more span:                      *)
(*   <<1>>, <<2>>, <<3>>    the three sites                                *)
(*   <<4, j>>               of a token of the macro's input                *)
(*   <<5, j>>               converted from the compiler's                  *)
(*   <<6, x, y>>            spans[x] resolved at spans[y]                  *)
(*   <<7, x, y>>            spans[x] located at spans[y]                   *)
(*   <<8, x, how>>          read back from tokens that were given spans[x] *)
(*   <<9, how>>             of tokens that were given none, of lex errors  *)
(*   <<10, x, y>>           as 6, by the compiler after unwrapping both    *)
Result(base, spans, o) ==
  CASE o[1] \in {CallSite, MixedSite, DefSite} -> base[o[1]]
    [] o[1] \in {4, 5} -> base[o[2]]
    [] o[1] \in {6, 10} -> ResolvedAt(spans[o[2]], spans[o[3]])
    [] o[1] = 7 -> LocatedAt(spans[o[2]], spans[o[3]])
    [] o[1] = 8 -> spans[o[2]]
    [] o[1] = 9 -> base[CallSite]
================================================================================
