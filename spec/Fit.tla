-------------------------------- MODULE Fit --------------------------------
(* The polynomial parametrization of a phase boundary (C16).                                           *)
(*                                                                                                    *)
(* Sampling a boundary point by point accumulates the normal equations G c = r of the least-squares    *)
(* problem in monomials of degree at most n, over the part before the first vanishing temperature.     *)
(* `kind` is either a polynomial, given by its coefficients, or "free": arbitrary data.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NMax, XMax, Coefs, FreeT

VARIABLES n, kind, pb, len, ended, G, r
vars == <<n, kind, pb, len, ended, G, r>>

Pow(x, k) == IF k = 0 THEN 1 ELSE x ^ k
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Eval(c, x) == Sum([i \in 0 .. n |-> c[i] * Pow(x, i)], 0 .. n)

Distinct == Cardinality({pb[k][1] : k \in 1 .. len})
Repeated == Cardinality({pb[k][1] : k \in 1 .. Len(pb)}) < Len(pb)

Init == /\ n \in 0 .. NMax
        /\ \/ \E c \in [0 .. n -> Coefs] : kind = [free |-> FALSE, c |-> c]
           \/ kind = [free |-> TRUE, c |-> [i \in 0 .. n |-> 0]]
        /\ pb = <<>> /\ len = 0 /\ ended = FALSE
        /\ G = [i \in 0 .. n |-> [j \in 0 .. n |-> 0]]
        /\ r = [i \in 0 .. n |-> 0]

Add(x, t) ==
    (* chemical potentials increase; one of them may have been sampled twice *)
    /\ IF pb = <<>> THEN TRUE ELSE x > pb[Len(pb)][1] \/ (x = pb[Len(pb)][1] /\ ~Repeated /\ ~ended /\ t > 0)
    /\ pb' = Append(pb, <<x, t>>)
    /\ ended' = (ended \/ t = 0)
    /\ IF ended' THEN UNCHANGED <<G, r, len>>
       ELSE /\ len' = len + 1
            /\ G' = [i \in 0 .. n |-> [j \in 0 .. n |-> G[i][j] + Pow(x, i + j)]]
            /\ r' = [i \in 0 .. n |-> r[i] + t * Pow(x, i)]
    /\ UNCHANGED <<n, kind>>

Next == \E x \in 0 .. XMax :
           \/ ~kind.free /\ Add(x, Eval(kind.c, x))
           (* beyond the end of the boundary anything may follow, a polynomial or not *)
           \/ ~kind.free /\ ended /\ \E t \in FreeT : Add(x, t)
           \/ kind.free /\ \E t \in FreeT : Add(x, t)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- what holds *)
(* the coefficients of a polynomial solve the normal equations of its own samples *)
Reproduces == ~kind.free => \A i \in 0 .. n : Sum([j \in 0 .. n |-> G[i][j] * kind.c[j]], 0 .. n) = r[i]
(* with more than n points they are the only solution: two polynomials of degree n that agree there     *)
(* agree everywhere (checked against every other polynomial of the scope) *)
Unique == (~kind.free /\ Distinct > n) =>
            \A d \in [0 .. n -> Coefs] : (\A k \in 1 .. len : Eval(d, pb[k][1]) = pb[k][2]) => d = kind.c
TailIrrelevant == [][ended => UNCHANGED <<G, r, len>>]_vars
Emit == (Distinct > n /\ (ended \/ len >= n + 2)) =>
          PrintT("@@" \o ToJson([n |-> n, free |-> kind.free, c |-> [i \in 1 .. n + 1 |-> kind.c[i - 1]], pb |-> pb, len |-> len,
             G |-> [i \in 1 .. n + 1 |-> [j \in 1 .. n + 1 |-> G[i - 1][j - 1]]], r |-> [i \in 1 .. n + 1 |-> r[i - 1]]]))
CoefsQ == {-2, 0, 1}
CoefsT == {-3, 0, 2}
=============================================================================
