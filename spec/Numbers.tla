------------------------------- MODULE Numbers -------------------------------
(* The number types of the library (C21): a machine with one accumulator, which is a real or a complex number.  *)
(* v is the mathematical value, whatever the type that holds it; it may be promoted to complex at any time.     *)
EXTENDS GRat, Sequences, TLC, Json

CONSTANTS Depth

VARIABLES t, v, prog, start
vars == <<t, v, prog, start>>

Starts == {Mk(2, 0, 1), Mk(-1, 0, 2), Mk(3, 0, 1), Mk(0, 0, 1), Mk(3, -4, 1), Mk(-1, 1, 2), Mk(0, 2, 1)}
RealConsts == {Mk(2, 0, 1), Mk(-3, 0, 1), Mk(1, 0, 4)}
ComplexConsts == {ImUnit, Mk(1, 2, 1)}
Init == /\ v \in Starts /\ prog = <<>>
        /\ t \in (IF v.im = 0 THEN {"R", "C"} ELSE {"C"}) /\ start = [t |-> t, v |-> v]

Abs(n) == IF n < 0 THEN -n ELSE n
(* the modulus where it is rational *)
Moduli == {k \in 0..100 : k * k = v.re * v.re + v.im * v.im}
Step(op, k, type, value) == /\ Len(prog) < Depth
                            /\ t' = type /\ v' = value /\ prog' = Append(prog, [op |-> op, k |-> k, t |-> type]) /\ UNCHANGED start

Arith(c, type) == \/ Step("add", c, type, Add(v, c)) \/ Step("sub", c, type, Sub(v, c))
                  \/ Step("mul", c, type, Mul(v, c)) \/ Step("div", c, type, Div(v, c))
(* square root of the square: the principal one *)
Principal == IF v.re > 0 \/ (v.re = 0 /\ v.im >= 0) THEN v ELSE Neg(v)
Next == \/ \E c \in RealConsts : Arith(c, t)
        \/ \E c \in ComplexConsts : Arith(c, "C")
        \/ Step("neg", Zero, t, Neg(v))
        \/ (v # Zero /\ Step("inv", Zero, t, Inv(v)))
        \/ Step("re", Zero, "R", Mk(v.re, 0, v.d))
        \/ Step("im", Zero, "R", Mk(v.im, 0, v.d))
        \/ \E k \in Moduli : Step("abs", Zero, "R", Mk(k, 0, v.d))
        (* away from the cut of the square root *)
        \/ ((v.re # 0 \/ t = "R") /\ Step("sqrtsq", Zero, t, Principal))
        (* in the strip in which the logarithm undoes the exponential *)
        \/ (Abs(v.im) <= 3 * v.d /\ Abs(v.re) <= 20 * v.d /\ Step("lnexp", Zero, t, v))
        (* the other way round, wherever the type has logarithms and square roots; complex numbers have them everywhere *)
        \/ (v # Zero /\ (t = "C" \/ v.re > 0) /\ Step("expln", Zero, t, v))
        \/ ((t = "C" \/ v.re >= 0) /\ Step("sqsqrt", Zero, t, v))
        \/ Step("promote", Zero, "C", v)
Spec == Init /\ [][Next]_vars

(* real numbers stay real; what the accumulator holds does not depend on its type *)
RealsAreReal == t = "R" => v.im = 0
Emit == Len(prog) = Depth => PrintT("@@" \o ToJson([start |-> start, prog |-> prog, t |-> t, v |-> v]))
=============================================================================
