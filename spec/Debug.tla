-------------------------------- MODULE Debug --------------------------------
(***************************************************************************)
(* What {:?} and {:#?} show of token trees (as in TokenStore): structures  *)
(* of the standard library's form, nested like the tokens.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Located          \* locations are tracked

Text(x) == x               \* (texts are sequences of characters)
COMMA == <<44>>   SP == <<32>>   NL == <<10>>   PAD == <<32, 32, 32, 32>>

RECURSIVE Join(_, _, _, _)
Join(xs, sep, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN xs[a]
  ELSE LET m == (a + b) \div 2 IN Join(xs, sep, a, m) \o sep \o Join(xs, sep, m + 1, b)

\* four blanks at the beginning of every line
RECURSIVE IndentFrom(_, _, _)
IndentFrom(t, a, b) ==       \* after every line feed within a .. b, the last character of the text excepted
  IF a > b THEN <<>>
  ELSE IF a = b THEN IF t[a] = 10 /\ a # Len(t) THEN NL \o PAD ELSE <<t[a]>>
  ELSE LET m == (a + b) \div 2 IN IndentFrom(t, a, m) \o IndentFrom(t, m + 1, b)
Indent(t) == IF t = <<>> THEN t ELSE PAD \o IndentFrom(t, 1, Len(t))

\* name { field: value, ... }
Struct(pretty, name, fields) ==
  LET F(j) == fields[j][1] \o <<58, 32>> \o fields[j][2]
  IN IF pretty
     THEN name \o <<32, 123, 10>> \o Join([j \in 1 .. Len(fields) |-> Indent(F(j) \o COMMA \o NL)], <<>>, 1, Len(fields)) \o <<125>>
     ELSE name \o <<32, 123, 32>> \o Join([j \in 1 .. Len(fields) |-> F(j)], <<44, 32>>, 1, Len(fields)) \o <<32, 125>>
\* name(value)
Tuple(pretty, name, value) ==
  IF pretty THEN name \o <<40, 10>> \o Indent(value \o COMMA \o NL) \o <<41>> ELSE name \o <<40>> \o value \o <<41>>
\* [value, ...]
List(pretty, items) ==
  IF items = <<>> THEN <<91, 93>>
  ELSE IF pretty THEN <<91, 10>> \o Join([j \in 1 .. Len(items) |-> Indent(items[j] \o COMMA \o NL)], <<>>, 1, Len(items)) \o <<93>>
  ELSE <<91>> \o Join(items, <<44, 32>>, 1, Len(items)) \o <<93>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

BYTES == <<98, 121, 116, 101, 115, 40>>
SPAN == <<115, 112, 97, 110>>
STREAM == <<84, 111, 107, 101, 110, 83, 116, 114, 101, 97, 109>>
STREAMF == <<115, 116, 114, 101, 97, 109>>
IDENT == <<73, 100, 101, 110, 116>>
SYM == <<115, 121, 109>>
PUNCT == <<80, 117, 110, 99, 116>>
CHAR == <<99, 104, 97, 114>>
SPACING == <<115, 112, 97, 99, 105, 110, 103>>
JOINT == <<74, 111, 105, 110, 116>>
ALONE == <<65, 108, 111, 110, 101>>
LITERAL == <<76, 105, 116, 101, 114, 97, 108>>
LIT == <<108, 105, 116>>
GROUP == <<71, 114, 111, 117, 112>>
DELIMITER == <<100, 101, 108, 105, 109, 105, 116, 101, 114>>
PARENTHESIS == <<80, 97, 114, 101, 110, 116, 104, 101, 115, 105, 115>>
BRACE == <<66, 114, 97, 99, 101>>
BRACKET == <<66, 114, 97, 99, 107, 101, 116>>
NONE == <<78, 111, 110, 101>>

\* a span <<file, lo, hi>>; how 0: no numbers, 1: relative to min, 2: its length
SpanText(sp, how, min) ==
  BYTES \o (CASE how = 0 -> <<>>
              [] how = 1 -> Digits(sp[2] - min) \o <<46, 46>> \o Digits(sp[3] - min)
              [] OTHER -> Digits(sp[3] - sp[2])) \o <<41>>
\* shown for every token that is not at the call site
SpanField(sp, how, min) == IF Located /\ sp # <<0, 0, 0>> THEN << <<SPAN, SpanText(sp, how, min)>> >> ELSE <<>>

CharText(c) == IF c = 39 THEN <<39, 92, 39, 39>> ELSE <<39, c, 39>>

RECURSIVE TreeText(_, _, _, _)
StreamText(ts, pretty, how, min) ==
  STREAM \o SP \o List(pretty, [j \in 1 .. Len(ts) |-> TreeText(ts[j], pretty, how, min)])
TreeText(t, pretty, how, min) ==
  LET sp == SpanField(t[2], how, min) IN
  CASE t[1] = 1 -> Struct(pretty, IDENT, << <<SYM, t[3]>> >> \o sp)
    [] t[1] = 2 -> Struct(pretty, PUNCT, << <<CHAR, CharText(t[3])>>, <<SPACING, IF t[4] = 1 THEN JOINT ELSE ALONE>> >> \o sp)
    [] t[1] = 3 -> Struct(pretty, LITERAL, << <<LIT, t[3]>> >> \o sp)
    [] t[1] = 4 -> Struct(pretty, GROUP, << <<DELIMITER, CASE t[3] = 1 -> PARENTHESIS [] t[3] = 2 -> BRACE [] t[3] = 3 -> BRACKET [] OTHER -> NONE>>,
                                            <<STREAMF, StreamText(t[4], pretty, how, min)>> >> \o sp)
\* an identifier by itself, without locations, is shown shorter
TokenText(t, pretty, how, min) ==
  IF t[1] = 1 /\ ~Located THEN Tuple(pretty, IDENT, t[3]) ELSE TreeText(t, pretty, how, min)

\* the smallest position shown
RECURSIVE Least(_, _)
LeastOf(t, m) == LET own == IF t[2] # <<0, 0, 0>> /\ t[2][2] < m THEN t[2][2] ELSE m IN IF t[1] = 4 THEN Least(t[4], own) ELSE own
Least(ts, m) == IF ts = <<>> THEN m
                ELSE IF Len(ts) = 1 THEN LeastOf(ts[1], m)
                ELSE LET h == Len(ts) \div 2 IN Least(SubSeq(ts, h + 1, Len(ts)), Least(SubSeq(ts, 1, h), m))
==============================================================================
