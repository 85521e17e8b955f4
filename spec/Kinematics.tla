----------------------------- MODULE Kinematics -----------------------------
(* Relativistic energies and the Fermi momentum, exactly (C13).                                        *)
(* Reached from the rest frame by raising the momentum or the mass; masses may be complex.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS PMax, MMax
VARIABLES p, mr, mi, e2        \* momentum, mass (real and imaginary part), squared energy <<re, im>>
vars == <<p, mr, mi, e2>>
Sq2(a, bb) == <<a * a - bb * bb, 2 * a * bb>>
Init == p = 0 /\ mr = 0 /\ mi = 0 /\ e2 = <<0, 0>>
(* p^2 grows by 2p + 1, and so on: the squared energy is maintained by differences *)
RaiseP == p < PMax /\ p' = p + 1 /\ e2' = <<e2[1] + 2 * p + 1, e2[2]>> /\ UNCHANGED <<mr, mi>>
RaiseM == mr < MMax /\ mr' = mr + 1 /\ e2' = <<e2[1] + 2 * mr + 1, e2[2] + 2 * mi>> /\ UNCHANGED <<p, mi>>
RaiseI == mi < 4 /\ mi' = mi + 1 /\ e2' = <<e2[1] - 2 * mi - 1, e2[2] + 2 * mr>> /\ UNCHANGED <<p, mr>>
Next == RaiseP \/ RaiseM \/ RaiseI
Spec == Init /\ [][Next]_vars
Shell == e2[1] - p * p = Sq2(mr, mi)[1] /\ e2[2] = Sq2(mr, mi)[2]
(* a chemical potential equal to an energy has that energy's momentum as Fermi momentum *)
IsSquare(x) == \E r \in 0 .. 2 * (PMax + MMax) : r * r = x
Root(x) == CHOOSE r \in 0 .. 2 * (PMax + MMax) : r * r = x
FermiMomentum == (mi = 0 /\ IsSquare(e2[1])) => Root(e2[1]) * Root(e2[1]) - mr * mr = p * p
Emit == PrintT("@@" \o ToJson([p |-> p, mr |-> mr, mi |-> mi, e2 |-> e2,
                               root |-> IF mi = 0 /\ IsSquare(e2[1]) THEN Root(e2[1]) ELSE -1]))
=============================================================================
