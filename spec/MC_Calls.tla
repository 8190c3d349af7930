-------------------------------- MODULE MC_Calls --------------------------------
(***************************************************************************)
(* Any implementation that obeys BackendRules, wherever its calls can be   *)
(* interrupted: a call begins, is interrupted some times, and returns      *)
(* something the rules allow.  Simulated, it gives long schedules that do  *)
(* not depend on how the mode is represented.                              *)
(***************************************************************************)
EXTENDS BackendRules, TLC, Json
CONSTANTS MaxSteps, MaxStops
VARIABLES pc,       \* thread -> 0, or the call under way
          stops,    \* thread -> how often it was interrupted
          g, hist
vars == <<pc, stops, g, hist>>

Init == pc = [t \in Threads |-> 0] /\ stops = [t \in Threads |-> 0] /\ g = Rules0 /\ hist = <<>>

Outcomes(h, t, op) == IF op = 1 THEN {w \in {1, 2} : UseAllowed(h, t, w)} ELSE {0}
Interrupted(h, t, op) == pc' = [pc EXCEPT ![t] = op] /\ stops' = [stops EXCEPT ![t] = @ + 1] /\ g' = h
Ended(h, t, op) == /\ pc' = [pc EXCEPT ![t] = 0] /\ stops' = [stops EXCEPT ![t] = 0]
                   /\ \E w \in Outcomes(h, t, op) : g' = Returned(h, t, op, w)

Next ==
  /\ Len(hist) < MaxSteps
  /\ \E t \in Threads :
       \/ pc[t] = 0 /\ \E op \in 1 .. 3 :
            /\ hist' = Append(hist, <<t, op>>)
            /\ LET h == Called(g, t, op) IN Interrupted(h, t, op) \/ Ended(h, t, op)
       \/ /\ pc[t] # 0 /\ hist' = Append(hist, <<t, 4>>)
          /\ (stops[t] < MaxStops /\ Interrupted(g, t, pc[t])) \/ Ended(g, t, pc[t])
  /\ IF Len(hist') = MaxSteps THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* the rules never leave a use without an allowed outcome
Possible == \A t \in Threads : pc[t] = 1 => Outcomes(g, t, 1) # {}
=================================================================================
