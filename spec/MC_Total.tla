------------------------------- MODULE MC_Total -------------------------------
(* The predictions of Totality hold for small members of all families.      *)
EXTENDS Totality, TLC, Json, IOUtils
CONSTANT Upto
Families == ndJsonDeserialize(IOEnv.FAMILIES)
VARIABLES f, n
Init == f \in 1 .. Len(Families) /\ n = 0
Next == n < Upto /\ n' = n + 1 /\ UNCHANGED f
Linear == Summary(Text(Families[f], n)) = Predict(Families[f], n)
Constant == \A minus \in BOOLEAN :
  LET t == Text(Families[f], n) IN LiteralFromStr(IF minus THEN <<MINUS>> \o t ELSE t) = (Literally(Families[f], n, minus)[1] = 1)
===============================================================================
