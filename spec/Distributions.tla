---------------------------- MODULE Distributions ----------------------------
(* Fermi and Bose distributions and their kinematics, in exact arithmetic (C13).                       *)
(*                                                                                                    *)
(* Energies and chemical potentials are integer multiples of a unit u with beta0 * u = ln 2, plus an   *)
(* imaginary part in quarter turns: beta*(e - mu) = k ln 2 + i ph pi/2, so that the exponential is     *)
(* 2^k i^ph and every distribution is a Gaussian rational.  The transitions are the transformations    *)
(* of the arguments under which the values are related.                                               *)
EXTENDS GRat, Sequences, FiniteSets, TLC, Json

CONSTANTS EMax, BMax, KMax, Phases

VARIABLES e, mu, b,      \* energy, chemical potential, beta in units of beta0
          j, l,          \* phases of the energy and of the chemical potential, in quarter turns over b
          v              \* the values there
vars == <<e, mu, b, j, l, v>>

Abs(x) == IF x < 0 THEN -x ELSE x
Inf == [re |-> 1, im |-> 0, d |-> 0]       \* a pole
Pow2(k) == IF k >= 0 THEN Mk(2 ^ k, 0, 1) ELSE Mk(1, 0, 2 ^ (-k))
Turn(p) == CASE p % 4 = 0 -> Mk(1, 0, 1) [] p % 4 = 1 -> Mk(0, 1, 1) [] p % 4 = 2 -> Mk(-1, 0, 1) [] p % 4 = 3 -> Mk(0, -1, 1)
One == Whole(1)
InvP(x) == IF x = Zero THEN Inf ELSE Inv(x)
Plus(x, y) == IF x = Inf \/ y = Inf THEN Inf ELSE Add(x, y)

Exponential(kk, ph) == Mul(Pow2(kk), Turn(ph))
Fermi(kk, ph) == InvP(Add(Exponential(kk, ph), One))
Bose(kk, ph)  == InvP(Sub(Exponential(kk, ph), One))
(* the step of the zero-temperature form: one up to and including the chemical potential *)
Step(kk) == IF kk > 0 THEN Zero ELSE One
(* where the finite-temperature form tends to as beta grows (real arguments): 1/2 at the step itself *)
Limit(kk) == IF kk > 0 THEN Zero ELSE IF kk < 0 THEN One ELSE Mk(1, 0, 2)

Values(ee, mm, bb, jj, ll) ==
    LET k == bb * (ee - mm)  kp == bb * (ee + mm)  k0 == bb * ee IN
    [ex |-> Exponential(k, jj - ll), ex0 |-> Exponential(k0, jj),
     f |-> Fermi(k, jj - ll), fd |-> Plus(Fermi(k, jj - ll), Fermi(kp, jj + ll)), f0 |-> Fermi(k0, jj),
     b |-> Bose(k, jj - ll), b0 |-> Bose(k0, jj),
     fz |-> Step(k), fdz |-> Add(Step(k), Step(kp))]

InScope(ee, mm, bb) == bb * (Abs(ee) + Abs(mm)) <= KMax
Init == /\ b \in 1 .. BMax /\ e \in -EMax .. EMax /\ mu \in -EMax .. EMax
        /\ InScope(e, mu, b)
        /\ j \in Phases /\ l \in Phases
        /\ v = Values(e, mu, b, j, l)

To(ee, mm, bb, jj, ll) == /\ InScope(ee, mm, bb) /\ Abs(ee) <= EMax /\ Abs(mm) <= EMax
                          /\ e' = ee /\ mu' = mm /\ b' = bb /\ j' = jj /\ l' = ll
                          /\ v' = Values(ee, mm, bb, jj, ll)

Shift(s)   == To(e + s, mu + s, b, j, l)
ShiftIm    == To(e, mu, b, (j + 1) % 4, (l + 1) % 4)
Rescale    == b < BMax /\ e % 2 = 0 /\ mu % 2 = 0 /\ b * 2 <= BMax /\ To(e \div 2, mu \div 2, 2 * b, j, l)
Reflect    == To(-e, -mu, b, (4 - j) % 4, (4 - l) % 4)
Antiparticle == To(e, -mu, b, j, (4 - l) % 4)
Raise      == To(e + 1, mu, b, j, l)
Cool       == b < BMax /\ To(e, mu, b + 1, j, l)
Neutral    == To(e, 0, b, j, 0)
Next == Shift(1) \/ Shift(-1) \/ ShiftIm \/ Rescale \/ Reflect \/ Antiparticle \/ Raise \/ Cool \/ Neutral
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- identities *)
Real == j = 0 /\ l = 0
Fin(x) == x # Inf
InverseRelation == (Fin(v.f) /\ Fin(v.b)) => Sub(Inv(v.f), Inv(v.b)) = Whole(2)
Le(x, y) == x.re * y.d <= y.re * x.d
UnitInterval == Real => (Le(Zero, v.f) /\ Le(v.f, One))
HalfAtMu == (Real /\ e = mu) => v.f = Mk(1, 0, 2)
ZeroChempot == (mu = 0 /\ l = 0) => (v.f = v.f0 /\ v.b = v.b0 /\ v.ex = v.ex0)

Same(p, q) == p.f = q.f /\ p.b = q.b /\ p.ex = q.ex
ShiftInvariant == [][(Shift(1) \/ Shift(-1) \/ ShiftIm) => Same(v, v') /\ ((Shift(1) \/ Shift(-1)) => v.fz = v'.fz)]_vars
ScaleInvariant == [][Rescale => (v' = v)]_vars
ParticleHole   == [][Reflect => (Plus(v.f, v'.f) \in {One, Inf} /\ Plus(v.b, v'.b) \in {Whole(-1), Inf}
                                 /\ Plus(v.fd, v'.fd) \in {Whole(2), Inf})]_vars
TwoSided       == [][Antiparticle => (v.fd = v'.fd /\ v.fd = Plus(v.f, v'.f) /\ v.fdz = v'.fdz /\ v.fdz = Add(v.fz, v'.fz))]_vars
Decreasing     == [][(Raise /\ Real) => (Le(v'.f, v.f) /\ Le(v'.fz, v.fz) /\ Le(v'.fd, v.fd))]_vars
(* the exponential is multiplied by the same factor whatever the chemical potential *)
Multiplicative == [][Raise => v'.ex = Mul(v.ex, Pow2(b))]_vars
Sq(x) == Mul(x, x)
Dist(x, y) == Sq(Sub(x, y))
Approaches     == [][(Cool /\ Real) => Le(Dist(v'.f, Limit(b * (e - mu))), Dist(v.f, Limit(b * (e - mu))))]_vars

Emit == PrintT("@@" \o ToJson([k |-> "dist", e |-> e, mu |-> mu, b |-> b, j |-> j, l |-> l, v |-> v, lim |-> Limit(b * (e - mu))]))
=============================================================================
