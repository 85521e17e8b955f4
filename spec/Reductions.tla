---------------------------- MODULE Reductions ----------------------------
(* The lattice of thermal one-loop integrands (C14).                                                   *)
(*                                                                                                     *)
(* Every integrand stands for a general one - an integral family, a projection, a number of mass        *)
(* derivatives - under a set of restrictions on its arguments:                                          *)
(*    "eq"  the two masses are equal          "z2"  the second mass vanishes                            *)
(*    "z1"  the first mass vanishes           "om"  the frequency vanishes     "p"  the momentum does   *)
(* A name of the library is a representative of such a set.  A specialization adds one restriction and   *)
(* moves to the name that represents the larger set; TLC walks along all of them, from everywhere, and   *)
(* checks that the name reached depends on the restrictions only, not on the order in which they were    *)
(* imposed.  The driver replays every edge on the library.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Projs == {"", "l", "t"}
(* two-mass families I with 0 or 1 derivatives (with respect to the first squared mass), one-mass        *)
(* families J with 0, 1, 2; thermal logarithms L: their "masses" are the energy difference and the energy *)
Families == [fam : {"I"}, der : {0, 1}, proj : Projs] \cup [fam : {"J"}, der : {0, 1, 2}, proj : Projs]
            \cup [fam : {"L"}, der : {0}, proj : Projs]

Restrictions(f) ==
    CASE f.fam = "I" -> {"eq", "z2", "om", "p"} \cup (IF f.der = 0 THEN {"z1"} ELSE {})
      [] f.fam = "J" -> {"z1"}
      [] f.fam = "L" -> {"eq", "z1"} \cup (IF f.proj = "l" THEN {} ELSE {"om"})

VARIABLES f,     \* family
          rs,    \* restrictions imposed so far
          name   \* the name of the library reached
vars == <<f, rs, name>>

(* ------------------------------------------------------------------ names *)
(* mass: "mm" two masses, "same", "m0" one mass, "00" none; reg: "gen", "zm", "zp" *)
Name(g, m, r) == [fam |-> g.fam, der |-> g.der, proj |-> g.proj, mass |-> m, reg |-> r]

(* The name that represents a set of restrictions. *)
MassName(g, S) ==
    LET E == S \cap {"eq", "z1", "z2"} IN
    CASE g.fam = "J" -> IF "z1" \in E THEN "00" ELSE "m0"
      [] g.fam = "L" -> IF "z1" \in E THEN "00" ELSE IF "eq" \in E THEN "same" ELSE "mm"
      [] OTHER       -> IF Cardinality(E) >= 2 THEN "00" ELSE IF E = {} THEN "mm" ELSE IF "eq" \in E THEN "same" ELSE "m0"
RegName(S) == IF "om" \in S THEN "zm" ELSE IF "p" \in S THEN "zp" ELSE "gen"
Represent(g, S) == Name(g, MassName(g, S), RegName(S))

(* ------------------------------------------------------------------ the table of specializations of the *)
(* library, name by name, without memory of how the name was reached                                     *)
MassStep(n, r) ==
    CASE n.fam = "J" -> IF r = "z1" /\ n.mass = "m0" THEN "00" ELSE n.mass
      [] n.fam = "L" -> CASE n.mass = "mm" /\ r = "eq" -> "same"
                          [] n.mass = "same" /\ r = "z1" -> "00"
                          [] OTHER -> n.mass
      [] OTHER -> CASE n.mass = "mm" /\ r = "eq" -> "same"
                    [] n.mass = "mm" /\ r \in {"z1", "z2"} -> "m0"
                    [] n.mass = "same" /\ r \in {"z1", "z2"} -> "00"
                    [] n.mass = "m0" /\ r \in {"eq", "z1", "z2"} -> "00"
                    [] OTHER -> n.mass
Step(n, r) == CASE r = "om" -> [n EXCEPT !.reg = "zm"]
                [] r = "p"  -> [n EXCEPT !.reg = "zp"]
                [] OTHER    -> [n EXCEPT !.mass = MassStep(n, r)]

(* The limits of vanishing frequency and of vanishing momentum do not commute: only one is taken. A       *)
(* logarithm is made massless after its energies have been made equal.                                   *)
CanImpose(r) == /\ r \in Restrictions(f) \ rs
                /\ (r \in {"om", "p"}) => rs \cap {"om", "p"} = {}
                /\ (f.fam = "L" /\ r = "z1") => "eq" \in rs
                (* a massless integral has no mass left to restrict *)
                /\ (r \in {"eq", "z1", "z2"}) => name.mass # "00"

Init == /\ f \in Families
        /\ rs = {}
        /\ name = Represent(f, {})
Impose(r) == /\ CanImpose(r)
             /\ rs' = rs \cup {r}
             /\ name' = Step(name, r)
             /\ UNCHANGED f
             /\ PrintT("@@" \o ToJson([kind |-> "limit", from |-> name, r |-> r, rs |-> rs, to |-> name']))
Next == \E r \in {"eq", "z1", "z2", "om", "p"} : Impose(r)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
(* the name reached is that of the set: the order does not matter *)
Confluent == name = Represent(f, rs)
(* two specializations that can both be made next lead to one name by either way *)
Diamond == \A r, t \in Restrictions(f) : (r # t /\ CanImpose(r) /\ CanImpose(t) /\ {r, t} # {"om", "p"})
              => Step(Step(name, r), t) = Step(Step(name, t), r)
(* no way back *)
Grows == [][rs \subseteq rs']_vars

(* ------------------------------------------------------------------ derivatives *)
(* Each differentiated form integrates to the derivative, with respect to the (first) squared mass, of    *)
(* the integral with one derivative less: with the same sign for all projections, masses and regimes.    *)
(* At equal masses the total derivative is twice the partial one, by the symmetry of the integral.       *)
Sign == 1
HasDer(n) == n.fam # "L" /\ n.mass # "00" /\ n.der < (IF n.fam = "I" THEN 1 ELSE 2)
Weight(n) == IF n.mass = "same" THEN 2 ELSE 1
Reachable(g) == {Represent(g, S) : S \in {T \in SUBSET Restrictions(g) : ~({"om", "p"} \subseteq T)}}
AllNames == UNION {Reachable(g) : g \in Families}
ASSUME \A n \in AllNames : HasDer(n) =>
          PrintT("@@" \o ToJson([kind |-> "derivative", from |-> n, to |-> [n EXCEPT !.der = @ + 1], w |-> Sign * Weight(n)]))
(* Some names are synonyms: the massless-second-mass transverse derivative has two. *)
ASSUME \A r \in {"gen", "zm"} : LET n == Name([fam |-> "I", der |-> 1, proj |-> "t"], "m0", r) IN
          PrintT("@@" \o ToJson([kind |-> "synonym", from |-> n, to |-> n]))
(* differentiating and restricting commute: the differentiated form of a restricted name is the restricted *)
(* differentiated form                                                                                   *)
ASSUME \A g \in Families : \A S \in SUBSET {"om", "p", "z2", "eq"} :
          LET n == Represent(g, S \cap Restrictions(g)) IN
          HasDer(n) => [n EXCEPT !.der = @ + 1] = Represent([g EXCEPT !.der = @ + 1], S \cap Restrictions(g))
=============================================================================
