------------------------------- MODULE MC_Backend -------------------------------
(* All interleavings (with Cas = FALSE TLC finds the force that is lost to a *)
(* concurrent first use); one schedule for every transition.                 *)
EXTENDS Backend, TLC, Json
CONSTANTS Emit, MaxSteps
VARIABLE hist
MCInit == Init /\ hist = <<>>
MCNext == \E t \in Threads, act \in 1 .. 4 :
            /\ Step(t, act)
            /\ IF Emit THEN /\ Len(hist) < MaxSteps
                            /\ hist' = Append(hist, <<t, act>>)
                            /\ PrintT("SCRIPT " \o ToJson(hist'))
               ELSE hist' = hist
View == vars
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
=================================================================================
