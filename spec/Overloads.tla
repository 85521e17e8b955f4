------------------------------ MODULE Overloads ------------------------------
(* The instances of the generic functions (C21).  A state is a call: a function, the types its arguments have,    *)
(* and the value it returns, which is named after the call it was first computed by.  Arguments are promoted from *)
(* real to complex, one or several at a time as the signature permits; the value may not change with it.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES sig,      \* function -> set of the type vectors it can be called with
          f, types, value, path
vars == <<sig, f, types, value, path>>

Positions(s) == DOMAIN s
Below(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i] \/ (a[i] = "R" /\ b[i] = "C")
Least(S) == {a \in S : \A b \in S : Below(a, b)}
Sigs == LET J == JsonDeserialize(IOEnv.VERIF_OVERLOADS) IN
        [g \in DOMAIN J |-> {J[g][i] : i \in DOMAIN J[g]}]
Init == /\ sig = Sigs
        /\ f \in DOMAIN sig /\ types \in Least(sig[f]) /\ value = <<f, types>> /\ path = <<types>>
Promote == \E b \in sig[f] : /\ b # types /\ Below(types, b)
                             /\ types' = b /\ path' = Append(path, b) /\ UNCHANGED <<sig, f, value>>
Next == Promote
Spec == Init /\ [][Next]_vars

(* every function has a real form ... *)
HasLeast == \A g \in DOMAIN sig : Cardinality(Least(sig[g])) = 1
(* ... from which all the others come, with the same value *)
SameValue == value = <<f, path[1]>> /\ \A b \in sig[f] : Below(path[1], b)
Emit == Len(path) > 1 => PrintT("@@" \o ToJson([f |-> f, from |-> path[1], to |-> types]))
=============================================================================
