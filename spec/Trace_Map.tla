------------------------------ MODULE Trace_Map ------------------------------
(***************************************************************************)
(* Histories of parsing, asking about spans, span arithmetic and           *)
(* invalidation on several threads (C12, C13).                             *)
(*                                                                         *)
(* Every thread has a table of spans it holds; entry 1 is the call site.   *)
(* A parse is identified by its position in the trace, so that "the text"  *)
(* of a place <<text, lo, hi>> is simply looked up there.                  *)
(*                                                                         *)
(* Events <<kind, thread, ...>>:                                           *)
(*  <<0, n>>                    new history with n threads                 *)
(*  <<1, t, src, st, picks>>    parse as stream; st 1 ok, 0 error, 2 panic *)
(*        ok: picks lists <<flat token number, part>> of the spans kept;   *)
(*        error: the error's span is kept                                  *)
(*  <<2, t, src, st>>           parse as literal; ok: its span is kept     *)
(*  <<3, t, h, answer, name>>   ask about span h; name: file name, as a    *)
(*        small number (equal numbers = equal names; -2: it claims a     *)
(*        local file); answer <<>>: panic                                  *)
(*  <<4, t, h, g, r>>           join; r 0 nothing, 1 kept, 2 panic         *)
(*  <<5, t, h, from, to, r>>    sub-span of a literal located at h         *)
(*  <<6, t, h, g>> <<7, t, h, g>>  resolved_at, located_at: kept           *)
(*  <<8, t, h, g, r>>           equality                                   *)
(*  <<9, t>>                    invalidate: the table is reset             *)
(*  <<10, t, src, n, m>>        n parses in a row, m of them accepted;     *)
(*        nothing is kept                                                  *)
(*  <<11, t, n, ok>>            parse of n characters without tokens       *)
(*  <<12, t, h, g, r>>          the ends of two spans compared: start with *)
(*        start, end with end, start with end, end with start; each -1, 0, *)
(*        1 or 7 (the ways of comparing disagree)                          *)
(*  <<13, t, n, m>>             n spans, those kept and others, asked      *)
(*        about twice, in two orders; m answers changed                    *)
(***************************************************************************)
EXTENDS SpanAlgebra, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, tab, names, bad
vars == <<k, tab, names, bad>>

TextOf(p) == Trace[p[1]][3]
Fresh == <<Nowhere>>

Init == k = 1 /\ tab = <<>> /\ names = <<>> /\ bad = FALSE

Complain(why) == PrintT(<<"MISMATCH", k, why>>)
Wrong(why) == Complain(why) /\ bad' = TRUE /\ UNCHANGED <<tab, names>>
Keep(t, ps) == tab' = [tab EXCEPT ![t] = @ \o ps] /\ UNCHANGED names /\ bad' = FALSE
Same == UNCHANGED <<tab, names>> /\ bad' = FALSE

Reset(e) == /\ tab' = [t \in 1 .. e[2] |-> Fresh]
            /\ names' = [t \in 1 .. e[2] |-> {<<0, 0>>}]   \* <<text, name>>; the call site's name is number 0
            /\ bad' = FALSE

ParseStep(e) ==
  LET fin == Lex(e[3]) IN
  IF e[4] = 2 THEN Wrong("panic while parsing")
  ELSE IF fin.st = "ok" /\ e[4] = 1
       THEN LET own == Owners(fin.out)
            IN Keep(e[2], [j \in 1 .. Len(e[5]) |-> PartPlace(k, fin.out, own[e[5][j][1]], e[5][j][2])])
  ELSE IF fin.st = "err" /\ e[4] = 0 THEN Keep(e[2], << <<k, fin.at, fin.at>> >>)
  ELSE Wrong("accepted or rejected wrongly")

LitStep(e) ==
  IF e[4] = 2 THEN Wrong("panic while parsing a literal")
  ELSE IF LiteralFromStr(e[3]) # (e[4] = 1) THEN Wrong("literal accepted or rejected wrongly")
  ELSE IF e[4] = 1 THEN Keep(e[2], << <<k, 1, Len(e[3]) + 1>> >>)
  ELSE Same

BulkStep(e) ==
  IF e[5] = (IF Lex(e[3]).st = "ok" THEN e[4] ELSE 0) THEN Same ELSE Wrong("accepted or rejected wrongly")

\* one name per text, different names for different texts (call site included)
NameOk(t, text, n) == \A x \in names[t] : (x[1] = text) = (x[2] = n)

QueryStep(e) ==
  LET t == e[2]  p == tab[t][e[3]] IN
  IF e[4] = <<>> THEN Wrong("panic while asking for a location")
  ELSE IF e[4] # Answer(IF IsNowhere(p) THEN <<>> ELSE TextOf(p), p) THEN Wrong("wrong location answer")
  ELSE IF e[5] = -2 THEN Wrong("a local file for a parsed string")
  ELSE IF ~NameOk(t, p[1], e[5]) THEN Wrong("file names do not tell texts apart")
  ELSE /\ names' = [names EXCEPT ![t] = @ \cup {<<p[1], e[5]>>}]
       /\ UNCHANGED tab /\ bad' = FALSE

JoinStep(e) ==
  LET j == Join(tab[e[2]][e[3]], tab[e[2]][e[4]]) IN
  IF e[5] = 2 THEN Wrong("panic in join")
  ELSE IF e[5] # Len(j) THEN Wrong("join gives a span across texts or none within one")
  ELSE Keep(e[2], j)

SubStep(e) ==
  LET p == tab[e[2]][e[3]]
      j == SubPlace(IF IsNowhere(p) THEN <<>> ELSE TextOf(p), p, e[4], e[5]) IN
  IF e[6] = 2 THEN Wrong("panic in subspan")
  ELSE IF e[6] # Len(j) THEN Wrong("sub-span inside refused or outside granted")
  ELSE Keep(e[2], j)

\* lines first, then columns
Order(a, b) == IF a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) THEN -1 ELSE IF a = b THEN 0 ELSE 1
Ends(p) == LET d == Answer(IF IsNowhere(p) THEN <<>> ELSE TextOf(p), p) IN << <<d[3], d[4]>>, <<d[5], d[6]>> >>
CompareStep(e) ==
  LET x == Ends(tab[e[2]][e[3]])  y == Ends(tab[e[2]][e[4]]) IN
  IF e[5] = <<Order(x[1], y[1]), Order(x[2], y[2]), Order(x[1], y[2]), Order(x[2], y[1])>> THEN Same
  ELSE Wrong("locations compare wrongly")

Next ==
  /\ k <= Len(Trace)
  /\ k' = k + 1
  /\ LET e == Trace[k] IN
     IF e[1] = 0 THEN Reset(e)
     ELSE IF bad THEN UNCHANGED <<tab, names, bad>>
     ELSE CASE e[1] = 1 -> ParseStep(e)
            [] e[1] = 2 -> LitStep(e)
            [] e[1] = 3 -> QueryStep(e)
            [] e[1] = 4 -> JoinStep(e)
            [] e[1] = 5 -> SubStep(e)
            [] e[1] = 6 -> Keep(e[2], <<tab[e[2]][e[3]]>>)
            [] e[1] = 7 -> Keep(e[2], <<tab[e[2]][e[4]]>>)
            [] e[1] = 8 -> IF (e[5] = 1) = (tab[e[2]][e[3]] = tab[e[2]][e[4]]) THEN Same
                           ELSE Wrong("wrong equality of spans")
            [] e[1] = 10 -> BulkStep(e)
            [] e[1] = 11 -> IF e[4] = 1 THEN Same ELSE Wrong("accepted or rejected wrongly")
            [] e[1] = 12 -> CompareStep(e)
            [] e[1] = 13 -> IF e[3] > 0 /\ e[4] = 0 THEN Same ELSE Wrong("an answer depends on what was asked before")
            [] e[1] = 9 -> /\ tab' = [tab EXCEPT ![e[2]] = Fresh]
                           /\ names' = [names EXCEPT ![e[2]] = {<<0, 0>>}]
                           /\ bad' = FALSE
==============================================================================
