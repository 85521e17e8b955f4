------------------------------- MODULE Denot -------------------------------
(* What a correlator function of the library denotes, symbolically.                                   *)
(*                                                                                                    *)
(* The inverse dressing function of a correlator is a sum of terms (n/d) * atom.  Atoms are the       *)
(* one-loop building blocks (low_level::oneloop):                                                     *)
(*   F, FXI, FZ   vacuum gluon loop, its gauge-parameter part (times xi), additive constant f0        *)
(*   G, GXI, GZ   the same for the ghost (GZ = g0)                                                    *)
(*   FQ, FQX      vacuum quark loop, crossed vacuum quark loop, at a given quark mass                 *)
(*   GLUE, SELF   thermal gluon-loop polarization, thermal ghost self-energy                          *)
(*   QUARK        thermal quark-loop polarization at a given mass (finite or zero temperature)        *)
(* The symbols stay uninterpreted here; the conformance driver evaluates them.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Term(n, d, a, m) == [n |-> n, d |-> d, a |-> a, m |-> m]
One(a) == <<Term(1, 1, a, 0)>>

(* A query: which function is called.                                                                 *)
(*   field "gluon"/"ghost"; fam "ym" (pure Yang-Mills), "qcd" (global settings), "cfg" (FieldConfig); *)
(*   reg "vac", "gen", "zm" (vanishing frequency), "zp" (vanishing momentum); pol "l"/"t"/"-";        *)
(*   temp "fin"/"zero"/"-"; gauge "landau"/"xi"; cross TRUE for the crossed vacuum loop;              *)
(*   obj "inv"/"dr"/"pr".                                                                             *)
Regimes == {"gen", "zm", "zp"}
Objs    == {"inv", "dr", "pr"}

VacShapes ==
    [field : {"gluon"}, fam : {"ym"}, reg : {"vac"}, pol : {"-"}, temp : {"-"}, gauge : {"landau", "xi"}, cross : {FALSE}, obj : Objs]
    \cup
    [field : {"gluon"}, fam : {"qcd", "cfg"}, reg : {"vac"}, pol : {"-"}, temp : {"-"}, gauge : {"landau", "xi"}, cross : BOOLEAN, obj : Objs]
    \cup
    [field : {"ghost"}, fam : {"ym", "qcd"}, reg : {"vac"}, pol : {"-"}, temp : {"-"}, gauge : {"landau", "xi"}, cross : {FALSE}, obj : Objs]
ThermalShapes ==
    [field : {"gluon"}, fam : {"ym"}, reg : Regimes, pol : {"l", "t"}, temp : {"fin"}, gauge : {"landau"}, cross : {FALSE}, obj : Objs]
    \cup
    [field : {"gluon"}, fam : {"qcd", "cfg"}, reg : Regimes, pol : {"l", "t"}, temp : {"fin", "zero"}, gauge : {"landau"}, cross : {FALSE}, obj : Objs]
    \cup
    [field : {"ghost"}, fam : {"ym", "qcd"}, reg : Regimes, pol : {"-"}, temp : {"fin"}, gauge : {"landau"}, cross : {FALSE}, obj : Objs]
Shapes == VacShapes \cup ThermalShapes

VacGluon(gauge) == One("F") \o One("FZ") \o (IF gauge = "xi" THEN One("FXI") ELSE <<>>)
VacGhost(gauge) == One("G") \o One("GZ") \o (IF gauge = "xi" THEN One("GXI") ELSE <<>>)
QuarkVac(cross) == IF cross THEN "FQX" ELSE "FQ"

(* quarks: sequence of <<flavors, mass>>; dv, dt: denominators of the vacuum and of the thermal part  *)
RECURSIVE Loops(_, _, _, _, _)
Loops(quarks, dv, dt, cross, thermal) ==
    IF quarks = <<>> THEN <<>>
    ELSE LET q == Head(quarks) IN
         <<Term(q[1], dv, QuarkVac(cross), q[2])>>
         \o (IF thermal THEN <<Term(q[1], dt, "QUARK", q[2])>> ELSE <<>>)
         \o Loops(Tail(quarks), dv, dt, cross, thermal)

(* gluon correlator with the given quark content *)
GluonInv(s, quarks, dv, dt) ==
    VacGluon(s.gauge)
    \o (IF s.temp = "fin" THEN One("GLUE") ELSE <<>>)
    \o Loops(quarks, dv, dt, s.cross, s.temp # "-")
GhostInv(s) == VacGhost(s.gauge) \o (IF s.temp = "fin" THEN One("SELF") ELSE <<>>)

(* Ideal denotation of the inverse dressing function. r: registers; mq: mass argument; c: configuration *)
Inv(s, r, mq, c) ==
    IF s.field = "ghost" THEN GhostInv(s)
    ELSE CASE s.fam = "ym"  -> GluonInv(s, <<>>, 1, 1)
           [] s.fam = "qcd" -> GluonInv(s, <<<<r.nf, mq>>>>, r.nc, r.nc)
           [] s.fam = "cfg" -> GluonInv(s, c.quarks, c.nc, c.nc)

(* The denotation of the code as built: the vacuum loop of the global-settings functions takes the   *)
(* cached quotient, and (finding D1) the thermal quark loop is always divided by the global nc.       *)
InvBuilt(s, r, ratio, mq, c) ==
    IF s.field = "ghost" THEN GhostInv(s)
    ELSE CASE s.fam = "ym"  -> GluonInv(s, <<>>, 1, 1)
           [] s.fam = "qcd" -> GluonInv(s, <<<<ratio[1], mq>>>>, ratio[2], r.nc)
           [] s.fam = "cfg" -> GluonInv(s, c.quarks, c.nc, r.nc)

(* Low-level building blocks and densities that read the settings themselves: weight n/d of an atom. *)
LowWeights == {"quark", "free", "density"}
Low(w, r) == CASE w = "quark"   -> Term(1, r.nc, "LOW", 0)
               [] w = "free"    -> Term(1, 1, "LOW", 0)
               [] w = "density" -> Term(r.nc, 1, "LOW", 0)

(* ---------------------------------------------------------------- normal form *)
(* Two sums denote the same function iff their normal forms agree: coefficients of equal atoms added  *)
(* over a common denominator, vanishing ones dropped.                                                 *)
RECURSIVE SumFor(_, _, _, _)
SumFor(ts, a, m, D) ==
    IF ts = <<>> THEN 0
    ELSE (IF Head(ts).a = a /\ Head(ts).m = m THEN Head(ts).n * (D \div Head(ts).d) ELSE 0) + SumFor(Tail(ts), a, m, D)
Atoms(ts) == {<<ts[i].a, ts[i].m>> : i \in DOMAIN ts}
(* D: a common multiple of all denominators in use *)
Norm(ts, D) == {<<x[1], x[2], SumFor(ts, x[1], x[2], D)>> : x \in {y \in Atoms(ts) : SumFor(ts, y[1], y[2], D) # 0}}
Same(a, b, D) == Norm(a, D) = Norm(b, D)
=============================================================================
