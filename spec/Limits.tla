------------------------------- MODULE Limits -------------------------------
(* Kinematic and thermodynamic limits of the correlators and of their building blocks (C11).            *)
(*                                                                                                       *)
(* Start from a function in general kinematics, at finite temperature, with its full quark content, and  *)
(* impose restrictions one by one:                                                                       *)
(*    "om"  the frequency vanishes             "p"   the momentum vanishes (instead of the frequency)     *)
(*    "T"   the temperature vanishes           "mu"  the chemical potential is below every quark mass     *)
(*    "nf"  no quark flavors                                                                              *)
(* Each restriction leads from one function of the library to another (or back to itself, where the      *)
(* library has no dedicated function).  What the function reached must denote is derived independently,  *)
(* from the denotation of the general function (Denot.tla): each atom of the sum is restricted, and the   *)
(* atoms that vanish under the restrictions are dropped.  Confluent says that both agree after every      *)
(* sequence of restrictions; every edge is printed and replayed on the library.                          *)
EXTENDS Denot, Json

(* ------------------------------------------------------------------ functions *)
(* lvl "corr": correlator (shape of Denot); "low": value of a polarization or self-energy; "int": its    *)
(* integrand.  "nil": the function that vanishes identically.                                            *)
CorrShape == [field : {"gluon"}, fam : {"ym", "qcd", "cfg"}, pol : {"l", "t"}, obj : Objs]
             \cup [field : {"ghost"}, fam : {"ym", "qcd"}, pol : {"-"}, obj : Objs]
BlockShape == [field : {"gluon"}, fam : {"glue", "quark"}, pol : {"l", "t"}, obj : {"low", "int"}]
              \cup [field : {"ghost"}, fam : {"self"}, pol : {"-"}, obj : {"low", "int"}]
Origins == CorrShape \cup BlockShape
IsBlock(o) == o.obj \in {"low", "int"}
HasQuarks(o) == o.fam \in {"qcd", "cfg", "quark"} /\ o.field = "gluon"

Name(o, fam, reg, temp) == [field |-> o.field, fam |-> fam, reg |-> reg, pol |-> IF reg \in {"vac", "nil"} THEN "-" ELSE o.pol,
                            temp |-> temp, obj |-> o.obj]
General(o) == Name(o, o.fam, "gen", "fin")

(* ------------------------------------------------------------------ restrictions *)
Restrictions(o) == {"om", "p", "T"} \cup (IF HasQuarks(o) THEN {"mu"} ELSE {})
                   \cup (IF o.fam \in {"qcd", "cfg"} THEN {"nf"} ELSE {})

VARIABLES origin,  \* what the walk started from
          rs,      \* restrictions imposed so far, as a set
          name     \* the function of the library reached
vars == <<origin, rs, name>>

(* The table of specializations of the library: which function to call once one more restriction holds. *)
Cold(n, below) ==
    CASE n.reg \in {"vac", "nil"}                    -> n
      [] n.fam \in {"glue", "self"}                  -> [n EXCEPT !.reg = "nil", !.temp = "-", !.pol = "-"]
      [] n.fam = "quark" /\ below                    -> [n EXCEPT !.reg = "nil", !.temp = "-", !.pol = "-"]
      [] n.fam = "quark"                             -> [n EXCEPT !.temp = "zero"]
      [] n.field = "ghost" \/ n.fam = "ym" \/ below  -> [n EXCEPT !.reg = "vac", !.temp = "-", !.pol = "-"]
      [] OTHER                                       -> [n EXCEPT !.temp = "zero"]
Reg(n, r) == IF n.reg \in {"vac", "nil"} THEN n ELSE [n EXCEPT !.reg = r]
NoQuarks(n) == IF n.temp = "zero" THEN [n EXCEPT !.fam = "ym", !.reg = "vac", !.temp = "-", !.pol = "-"] ELSE [n EXCEPT !.fam = "ym"]
Step(n, r) ==
    CASE r = "om" -> Reg(n, "zm")
      [] r = "p"  -> Reg(n, "zp")
      [] r = "T"  -> Cold(n, "mu" \in rs)
      [] r = "mu" -> IF n.temp = "zero" THEN Cold(n, TRUE) ELSE n
      [] r = "nf" -> NoQuarks(n)

Init == /\ origin \in Origins
        /\ rs = {}
        /\ name = General(origin)
Impose(r) == /\ r \in Restrictions(origin) \ rs
             (* the limits of vanishing frequency and of vanishing momentum do not commute *)
             /\ (r \in {"om", "p"}) => rs \cap {"om", "p"} = {}
             /\ rs' = rs \cup {r}
             /\ name' = Step(name, r)
             /\ UNCHANGED origin
             /\ PrintT("@@" \o ToJson([kind |-> "limit", from |-> name, r |-> r, rs |-> rs, to |-> name']))
Next == \E r \in {"om", "p", "T", "mu", "nf"} : Impose(r)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ denotations *)
(* quark content used to tell the denotations apart *)
Regs == [nc |-> 3, nf |-> 2]
Cfg == [nc |-> 2, quarks |-> <<<<1, 1>>, <<2, 2>>>>]

(* An atom with the restrictions it feels.  Without momentum no direction is left: l and t coincide.     *)
Feel(a, S) == CASE a \in {"GLUE", "SELF"} -> S \cap {"om", "p"}
                [] a = "QUARK"            -> S \cap {"om", "p", "T"}
                [] OTHER                  -> {}
Direction(a, S, pol) == IF a \in {"GLUE", "QUARK"} /\ "p" \notin S THEN pol ELSE "-"
Vanishes(a, S) == \/ a \in {"GLUE", "SELF"} /\ "T" \in S
                  \/ a = "QUARK" /\ {"T", "mu"} \subseteq S
                  \/ a \in {"QUARK", "FQ"} /\ "nf" \in S
(* terms of the normal form: <<atom, mass, coefficient>> *)
Restricted(N, S, pol) == {[a |-> x[1], m |-> x[2], c |-> x[3], f |-> Feel(x[1], S), d |-> Direction(x[1], S, pol)]
                           : x \in {y \in N : ~Vanishes(y[1], S)}}

Shape(n) == [field |-> n.field, fam |-> n.fam, reg |-> n.reg, pol |-> n.pol, temp |-> n.temp, gauge |-> "landau",
             cross |-> FALSE, obj |-> n.obj]
D == 6
Sum(n) == IF n.reg = "nil" THEN {}
          ELSE IF n.fam \in {"glue", "quark", "self"}
               THEN {<<CASE n.fam = "glue" -> "GLUE" [] n.fam = "quark" -> "QUARK" [] n.fam = "self" -> "SELF", 1, D>>}
               ELSE Norm(Inv(Shape(n), Regs, 1, Cfg), D)
(* the restrictions a function of the library has built in *)
BuiltIn(n) == (CASE n.reg = "zm" -> {"om"} [] n.reg = "zp" -> {"p"} [] OTHER -> {}) \cup (IF n.temp = "zero" THEN {"T"} ELSE {})
Denotes(n) == Restricted(Sum(n), BuiltIn(n), n.pol)

(* ------------------------------------------------------------------ properties *)
(* what is reached denotes the restriction of what the walk started from *)
Confluent == Denotes(name) = Restricted(Sum(General(origin)), rs, origin.pol)
(* and is a function the library has: a shape of Denot, or a building block *)
Exists == IsBlock(origin) \/ Shape(name) \in Shapes
(* imposing two restrictions in either order leads to the same function *)
Commute == \A r, t \in Restrictions(origin) \ rs :
              (r # t /\ Cardinality({r, t} \cap {"om", "p"}) + Cardinality(rs \cap {"om", "p"}) <= 1)
              => LET after(n, x, S) == CASE x = "T"  -> Cold(n, "mu" \in S)
                                         [] OTHER    -> Step(n, x)
                 IN after(after(name, r, rs), t, rs \cup {r}) = after(after(name, t, rs), r, rs \cup {t})
(* longitudinal and transverse functions coincide at vanishing momentum *)
Isotropic == \A pol \in {"l", "t"} :
                ("p" \in rs /\ origin.field = "gluon" /\ name.reg \notin {"vac", "nil"})
                => Denotes([name EXCEPT !.pol = pol]) = Denotes(name)
EmitIso == ("p" \in rs /\ origin.field = "gluon" /\ name.reg = "zp" /\ origin.pol = "l")
           => PrintT("@@" \o ToJson([kind |-> "isotropy", from |-> name, r |-> "pol", rs |-> rs, to |-> [name EXCEPT !.pol = "t"]]))
=============================================================================
