------------------------------ MODULE Maximum ------------------------------
(* The critical temperature of a sampled curve (C15): a scan that keeps the best point so far, with    *)
(* its declarative meaning, the first temperature at which the curve attains its global maximum.       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS DMax, N
VARIABLES ds, best
vars == <<ds, best>>
Init == \E d \in 0 .. DMax : ds = <<d>> /\ best = 1
Sample(d) == /\ Len(ds) < N
             /\ ds' = Append(ds, d)
             /\ best' = IF d > ds[best] THEN Len(ds) + 1 ELSE best
Next == \E d \in 0 .. DMax : Sample(d)
Spec == Init /\ [][Next]_vars

IsMax(i) == \A j \in 1 .. Len(ds) : ds[j] <= ds[i]
First(i) == \A j \in 1 .. i - 1 : ds[j] < ds[i]
BestIsFirstMaximum == IsMax(best) /\ First(best)
Unique == \A i \in 1 .. Len(ds) : (IsMax(i) /\ First(i)) => i = best
Emit == PrintT("@@" \o ToJson([ds |-> ds, best |-> best]))
=============================================================================
