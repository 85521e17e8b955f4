------------------------------- MODULE Residue -------------------------------
(* Numerical residues and spectral functions (C08), in exact arithmetic.                               *)
(* The function is known only through its values at the two points where it may be called; it is      *)
(* chosen freely there, or as one of the families for which the result is known in closed form.       *)
EXTENDS GRat, Sequences, FiniteSets, TLC, Json

CONSTANTS Comp        \* range of the components of points, values and residues

VARIABLES kind,       \* "res" or "spec"
          z, eps, fam, par, \* point, step, family and its parameters
          todo,       \* points at which the function is still to be called
          val,        \* values received so far: set of <<offset, value>>
          out
vars == <<kind, z, eps, fam, par, todo, val, out>>

CompMC == -1..2
G == {Mk(a, b, 1) : a \in Comp, b \in Comp}
Reals == {x \in G : x.im = 0}
NZ == G \ {Zero}
Conj(x) == [x EXCEPT !.im = -@]
None == [re |-> 0, im |-> 0, d |-> 0]
Off(k) == IF k = "res" THEN eps ELSE Mul(ImUnit, eps)

(* a function of a family at x; "free" functions answer with the parameters themselves *)
F(x, side) == CASE fam = "free" -> IF side = "+" THEN par[1] ELSE par[2]
                [] fam = "pole" -> Div(par[1], Sub(x, par[2]))            \* r/(x - p)
                [] fam = "entire" -> Add(Mul(par[1], Mul(x, x)), Mul(par[2], x))

Steps == {Mk(1, 0, 1), Mk(1, 0, 2), Mk(1, 0, 7)}
Init == /\ kind \in {"res", "spec"}
        /\ eps \in Steps
        /\ fam \in {"free", "pole", "entire"}
        /\ \/ fam = "free" /\ z \in {Zero, Mk(2, 1, 1)} /\ par \in {<<a, b>> : a \in G, b \in G}
           \/ fam = "pole" /\ z \in G /\ par \in {<<r, p>> : r \in NZ, p \in {Zero, Mk(1, 1, 1), Mk(3, 0, 1)}}
           \/ fam = "entire" /\ kind = "spec" /\ z \in Reals /\ par \in {<<a, b>> : a \in Reals, b \in Reals}
        /\ todo = {"+", "-"} /\ val = [s \in {"+", "-"} |-> None] /\ out = None

At(s) == IF s = "+" THEN Add(z, Off(kind)) ELSE Sub(z, Off(kind))
Singular == fam = "pole" /\ \E s \in {"+", "-"} : At(s) = par[2]
Call(s) == /\ s \in todo /\ ~Singular
           /\ val' = [val EXCEPT ![s] = F(At(s), s)]
           /\ todo' = todo \ {s}
           /\ UNCHANGED <<kind, z, eps, fam, par, out>>

(* the two definitions *)
ResidueOf(u, v) == Div(Mul(Whole(2), eps), Sub(Inv(u), Inv(v)))
(* times 2 pi *)
SpectralOf(u, v) == Mul(ImUnit, Sub(u, v))
Defined == kind = "spec" \/ (val["+"] # Zero /\ val["-"] # Zero /\ val["+"] # val["-"])
Return == /\ todo = {} /\ out = None /\ Defined
          /\ out' = IF kind = "res" THEN ResidueOf(val["+"], val["-"]) ELSE SpectralOf(val["+"], val["-"])
          /\ PrintT("@@" \o ToJson([kind |-> kind, z |-> z, eps |-> eps, fam |-> fam, plus |-> At("+"), minus |-> At("-"),
                                    u |-> val["+"], v |-> val["-"], out |-> out']))
          /\ UNCHANGED <<kind, z, eps, fam, par, todo, val>>
(* one order suffices to print; both are explored *)
Next == Return \/ \E s \in {"+", "-"} : Call(s)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
Done == out # None
PoleExact == (Done /\ kind = "res" /\ fam = "pole") => out = par[1]
(* real-analytic functions have a real spectral function on the real axis *)
RealOnAxis == (Done /\ kind = "spec" /\ fam = "entire") => out.im = 0
(* and it vanishes with the step: entire: i (f(z+ie) - f(z-ie)) = -2 e (2 a z + b), linear in e *)
VanishesWithStep == (Done /\ kind = "spec" /\ fam = "entire") =>
    out = Mul(Mul(Whole(-2), eps), Add(Mul(Whole(2), Mul(par[1], z)), par[2]))
=============================================================================
