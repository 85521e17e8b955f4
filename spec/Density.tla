------------------------------- MODULE Density -------------------------------
(* The quark charge density and the chemical potential that produces it (C09).                        *)
(*                                                                                                    *)
(* A state is a query: colors, mass, temperature and chemical potential, in integer units (the        *)
(* temperature in units of 1/pi).  The transitions are the moves along which the density is related   *)
(* to itself; every one is printed as a law that the real functions must obey.  In units of           *)
(* nc/(3 pi^2) the density is known exactly at zero temperature, where it is k^3 with k^2 = mu^2-m^2,  *)
(* and for massless quarks, where it is mu^3 + t^2 mu; on those states the laws are checked here.      *)
EXTENDS Naturals, Integers, Sequences, TLC, Json

CONSTANTS Ncs, Ms, Ts, MuMax, Walk      \* Walk: print one line per behaviour instead of one per step

VARIABLES nc, m, t, mu, op, hist
vars == <<nc, m, t, mu, op, hist>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Mus == -MuMax .. MuMax

(* exact values: "cube" stands for s * k2^(3/2), "int" for itself, "free" for a number not known *)
Fermi2(mm, uu) == IF Abs(uu) <= Abs(mm) THEN 0 ELSE uu * uu - mm * mm
Val(mm, tt, uu) ==
    IF uu = 0 THEN [k |-> "int", x |-> 0]
    ELSE IF tt = 0 THEN [k |-> "cube", x |-> Sgn(uu) * Fermi2(mm, uu)]
    ELSE IF mm = 0 THEN [k |-> "int", x |-> uu * (uu * uu + tt * tt)]
    ELSE [k |-> "free", x |-> 0]
View == <<nc, m, t, mu>>
V == Val(m, t, mu)

(* a representation in which values of different kinds can be compared: the sign and the square *)
Sq(v) == IF v.k = "int" THEN v.x * v.x ELSE Abs(v.x) * v.x * v.x
Known(v) == v.k # "free"
LeAbs(v, w) == Sq(v) <= Sq(w)
Le(v, w) == IF Sgn(v.x) # Sgn(w.x) THEN Sgn(v.x) <= Sgn(w.x)
            ELSE IF Sgn(v.x) >= 0 THEN LeAbs(v, w) ELSE LeAbs(w, v)

Q(nn, mm, tt, uu) == [nc |-> nn, m |-> mm, t |-> tt, mu |-> uu, v |-> Val(mm, tt, uu)]
Init == /\ nc \in Ncs /\ m \in Ms /\ t \in Ts /\ mu \in Mus
        /\ op = "start" /\ hist = <<>>

Move(o, nn, mm, tt, uu) ==
    /\ nc' = nn /\ m' = mm /\ t' = tt /\ mu' = uu
    /\ op' = o
    /\ LET e == [op |-> o, a |-> Q(nc, m, t, mu), b |-> Q(nn, mm, tt, uu)] IN
       IF Walk > 0 THEN hist' = Append(hist, e) ELSE PrintT("@@" \o ToJson(e)) /\ UNCHANGED hist

Flip    == Move("odd", nc, m, t, -mu)
FlipM   == m > 0 /\ Move("even", nc, -m, t, mu)
Raise   == mu < MuMax /\ Move("rise", nc, m, t, mu + 1)
Recolor == \E x \in Ncs \ {nc} : Move("colors", x, m, t, mu)
Heat    == \E x \in {y \in Ts : y > t /\ \A z \in Ts : z <= t \/ z >= y} : Move("heat", nc, m, x, mu)
Lighten == \E x \in {y \in Ms : Abs(y) < Abs(m) /\ y >= 0} : Move("lighten", nc, x, t, mu)
Invert  == Move("invert", nc, m, t, mu)
(* all the way to zero temperature *)
Freeze  == t > 0 /\ Move("freeze", nc, m, 0, mu)
Next == Flip \/ FlipM \/ Raise \/ Recolor \/ Heat \/ Lighten \/ Invert \/ Freeze
Spec == Init /\ [][Next]_vars

(* a behaviour of Walk steps that wanders everywhere, to be replayed in one process *)
P(S) == RandomElement(S)
WInit == /\ nc = 3 /\ m = 0 /\ t = 1 /\ mu = 1 /\ op = "start" /\ hist = <<>>
WNext ==
    IF Len(hist) >= Walk
    THEN Len(hist) = Walk /\ PrintT("@@" \o ToJson(hist)) /\ hist' = Append(hist, <<>>) /\ UNCHANGED <<nc, m, t, mu, op>>
    ELSE \E k \in {P(1..9)}, a \in {P(Ncs)}, b \in {P(Ms)}, c \in {P(Ts)}, d \in {P(Mus)} :
         CASE k = 1 -> Flip
           [] k = 2 /\ m > 0 -> FlipM
           [] k = 3 /\ mu < MuMax -> Raise
           [] k = 4 /\ a # nc -> Move("colors", a, m, t, mu)
           [] k = 5 /\ c > t -> Move("heat", nc, m, c, mu)
           [] k = 6 /\ Abs(b) < Abs(m) -> Move("lighten", nc, b, t, mu)
           [] k = 7 /\ t > 0 -> Freeze
           [] k = 8 -> Move("jump", nc, b, c, d)
           [] OTHER -> Invert
WSpec == WInit /\ [][WNext]_vars

(* ---------------------------------------------------------------- the laws, where the values are known *)
V2 == Val(m', t', mu')
Both == Known(V) /\ Known(V2)
Vanishes == mu = 0 => V.x = 0
Odd      == [][(op' = "odd" /\ Both) => (V2.x = -V.x /\ (V.k = V2.k \/ mu = 0))]_vars
Even     == [][(op' = "even" /\ Both) => V2 = V]_vars
Rises    == [][(op' = "rise" /\ Both) => Le(V, V2)]_vars
Heats    == [][(op' = "heat" /\ Both) => LeAbs(V, V2)]_vars
Lightens == [][(op' = "lighten" /\ Both) => LeAbs(V, V2)]_vars
(* the density is injective wherever it does not vanish, so that the chemical potential is determined by it *)
Injective == (Known(V) /\ V.x # 0) => \A u \in Mus : (Known(Val(m, t, u)) /\ Val(m, t, u) = V) => u = mu
=============================================================================
