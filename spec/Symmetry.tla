------------------------------ MODULE Symmetry ------------------------------
(* The symmetry group of the theory acting on the arguments of a function (C12).                       *)
(*                                                                                                    *)
(* A state is an element of the group, reached by composing generators: the sign of each argument,    *)
(* whether complex arguments are conjugated, whether the two masses are exchanged; together with the  *)
(* character by which the value of the function must have changed: a sign and a conjugation.          *)
(* The action is well defined: the character depends on the group element alone, not on the order in  *)
(* which it was composed.  The conformance driver evaluates the real functions at every element.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

(* classes of functions and how they transform *)
Classes == {"even", "masses", "tlog", "density", "inverse", "vacuum", "cfg"}
Args == {"om", "p", "m", "mq", "m1", "m2", "mu", "n", "q"}

(* generators available to a class: those that flip an argument, with the sign of the value *)
Flip(c) == CASE c = "even"    -> [a \in {"om", "p", "m", "mq", "m1", "m2", "mu"} |-> 1]
             [] c = "masses"  -> [a \in {"om", "p", "m1", "m2"} |-> 1]
             [] c = "tlog"    -> [a \in {"p"} |-> -1]
             [] c = "density" -> [a \in {"m", "mu"} |-> IF a = "mu" THEN -1 ELSE 1]
             [] c = "inverse" -> [a \in {"m", "n"} |-> IF a = "n" THEN -1 ELSE 1]
             [] c = "vacuum"  -> [a \in {"mq"} |-> 1]
             [] c = "cfg"     -> [a \in {"om", "p", "mu", "m", "mq"} |-> 1]
(* conjugating every complex argument conjugates the value; for bare logarithms only together with the
   sign of the frequency *)
Conj(c) == c \in {"even", "masses", "vacuum", "cfg"}
Reflect(c) == c = "tlog"
Swap(c) == c = "masses"

VARIABLES cls, g, chi, steps
vars == <<cls, g, chi, steps>>
Unit == [flip |-> {}, conj |-> FALSE, swap |-> FALSE]
Init == cls \in Classes /\ g = Unit /\ chi = [sign |-> 1, conj |-> FALSE] /\ steps = 0

Toggle(S, x) == IF x \in S THEN S \ {x} ELSE S \cup {x}
(* flips are named after the slot they act on, so that exchanging the masses carries them along *)
Sw(S) == {IF x = "m1" THEN "m2" ELSE IF x = "m2" THEN "m1" ELSE x : x \in S}

Do(h, s, k) == /\ g' = h
               /\ chi' = [sign |-> chi.sign * s, conj |-> (chi.conj # k)]
               /\ UNCHANGED cls
DoFlip(a)  == a \in DOMAIN Flip(cls) /\ Do([g EXCEPT !.flip = Toggle(@, a)], Flip(cls)[a], FALSE)
DoConj     == Conj(cls) /\ Do([g EXCEPT !.conj = ~@], 1, TRUE)
DoReflect  == Reflect(cls) /\ Do([g EXCEPT !.conj = ~@, !.flip = Toggle(@, "om")], 1, TRUE)
DoSwap     == Swap(cls) /\ Do([g EXCEPT !.swap = ~@, !.flip = Sw(@)], 1, FALSE)
Next == /\ steps' = 0
        /\ (\E a \in Args : DoFlip(a)) \/ DoConj \/ DoReflect \/ DoSwap
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
(* the character as a function of the element: the composition order is irrelevant *)
RECURSIVE Prod(_, _)
Prod(S, f) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] * Prod(S \ {x}, f)
WellDefined == /\ chi.sign = Prod(g.flip \cap DOMAIN Flip(cls), Flip(cls))
               /\ chi.conj = g.conj
Involutive == \A a \in DOMAIN Flip(cls) : Flip(cls)[a] * Flip(cls)[a] = 1
Emit == PrintT("@@" \o ToJson([cls |-> cls, g |-> g, chi |-> chi]))
=============================================================================
