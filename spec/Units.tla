-------------------------------- MODULE Units --------------------------------
(* Change of units (C20).                                                                              *)
(*                                                                                                    *)
(* The theory has no scale of its own: every scale is an argument, the mass parameters of a field      *)
(* configuration, or the regulator of the zero-frequency limit.  A state is a quantity, built from an  *)
(* integrand by the operations the library is made of, together with the power k of two by which the   *)
(* unit of mass has been divided and the power v of two by which the number standing for the quantity  *)
(* has been multiplied since.  Building and changing units may be interleaved in any order.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS KMax

(* what a unit change does to the arguments: powers of the unit *)
ArgDim == [om |-> 1, p |-> 1, m |-> 1, mq |-> 1, m1 |-> 1, m2 |-> 1, mu |-> 1, q |-> 1, en |-> 1,
           delta |-> 2, beta |-> -1, n |-> 3, s |-> 0, f0 |-> 0, g0 |-> 0, xi |-> 0, ratio |-> 0, reg |-> 1]

VARIABLES t,      \* the quantity: what it is and how it was built
          k, v
vars == <<t, k, v>>

(* starting points and their dimensions: one-propagator thermal integrand, thermal logarithm, one-loop polarization or
   self-energy integrand, functions of dimensionless variables, energies, momenta, densities *)
Start == [loop |-> 1, log |-> 0, pol |-> 1, vac |-> 0, stat |-> 0, energy |-> 1, energy2 |-> 2, density |-> 3, chempot |-> 1]
New(x) == [kind |-> x, props |-> 1, der |-> 0, proj |-> FALSE, stage |-> "raw", inv |-> FALSE]
Init == /\ t \in {New(x) : x \in DOMAIN Start} /\ k \in -KMax .. KMax /\ v = k * Start[t.kind]

Build(new, change) == t' = new /\ v' = v + k * change /\ UNCHANGED k

(* a second propagator, 1/(momentum^2 + mass^2) *)
Propagator2 == t.kind = "loop" /\ t.props = 1 /\ t.der = 0 /\ Build([t EXCEPT !.props = 2], -2)
(* contraction with momenta in the numerator *)
Project  == /\ t.kind \in {"loop", "log"} /\ ~t.proj
            /\ Build([t EXCEPT !.proj = TRUE], IF t.kind = "log" THEN 4 ELSE 2)
(* minus the derivative with respect to a squared mass; the integrals over one propagator are needed twice *)
Differentiate == t.kind = "loop" /\ t.der < (IF t.props = 1 THEN 2 ELSE 1) /\ Build([t EXCEPT !.der = @ + 1], -2)
(* integration over the momentum *)
Integrate == t.kind = "pol" /\ t.stage = "raw" /\ Build([t EXCEPT !.stage = "integral"], 1)
(* the inverse dressing function divides the polarization by the squared momentum *)
Dress == t.kind = "pol" /\ t.stage = "integral" /\ Build([t EXCEPT !.stage = "dressing", !.inv = TRUE], -2)
(* the reciprocal of something that has no dimension *)
Invert == t.kind = "pol" /\ t.stage = "dressing" /\ t.inv /\ Build([t EXCEPT !.inv = FALSE], 0)
Propagate == t.kind = "pol" /\ t.stage = "dressing" /\ ~t.inv /\ Build([t EXCEPT !.stage = "propagator"], -2)

(* the dimension of a quantity, whatever the way it was reached *)
Dim(x) == Start[x.kind] + (IF x.kind = "loop" THEN 2 * (1 - x.props) + (IF x.proj THEN 2 ELSE 0) - 2 * x.der
                           ELSE IF x.kind = "log" THEN (IF x.proj THEN 4 ELSE 0)
                           ELSE IF x.kind = "pol" THEN (CASE x.stage = "raw" -> 0 [] x.stage = "integral" -> 1
                                                          [] x.stage = "dressing" -> -1 [] x.stage = "propagator" -> -3)
                           ELSE 0)
Rescale(j) == k + j \in -KMax .. KMax /\ k' = k + j /\ v' = v + j * Dim(t) /\ UNCHANGED t
Next == Propagator2 \/ Project \/ Differentiate \/ Integrate \/ Dress \/ Invert \/ Propagate \/ Rescale(1) \/ Rescale(-1)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
(* The number depends on the units alone, not on when they were changed; back in the old units it is the old number. *)
Covariant == v = k * Dim(t)
(* What is compared between regimes, and the arguments it is a function of, agree on what they are *)
DressingsHaveNone == (t.kind = "pol" /\ t.stage = "dressing") => Dim(t) = 0
Emit == PrintT("@@" \o ToJson([t |-> t, k |-> k, v |-> v, args |-> [a \in DOMAIN ArgDim |-> k * ArgDim[a]]]))
=============================================================================
