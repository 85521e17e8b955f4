------------------------------ MODULE FindRoot ------------------------------
(* The secant root search (C07), in exact arithmetic.                                                  *)
(*                                                                                                    *)
(* The searched function is an adversary: the value at a point not met before is chosen freely from a *)
(* small set (a root, a value just below or at the tolerance, larger values of both signs, NaN), and  *)
(* a point met before has its value.  Equal values send the next point to infinity, where the         *)
(* function has the value wInf.  Exhausting all choices covers every function as far as a search of   *)
(* this length can tell functions apart over these values.                                            *)
EXTENDS GRat, Sequences, TLC, Json

CONSTANTS Guesses,      \* set of pairs of Gaussian rationals <<re, im>> (integers)
          Values,       \* integer pairs <<re, im>>, to be divided by VDen
          VDen,
          MaxIters

VARIABLES z0, z1,       \* current pair of points (Gaussian rationals or Infty)
          f0, f1,       \* their values (Gaussian rationals or NaN)
          left,         \* iterations left
          known,        \* the function so far: sequence of [z, v], in order of first evaluation
          calls, st, res, par
vars == <<z0, z1, f0, f1, left, known, calls, st, res, par>>

(* values and points that are no numbers; d = 0 marks them *)
NaN == [re |-> 0, im |-> 0, d |-> 0]
Infty == [re |-> 1, im |-> 0, d |-> 0]
Nowhere == [re |-> 2, im |-> 0, d |-> 0]

(* tolerance 1/2 throughout; the driver scales points and values *)
Small(v) == v # NaN /\ Below(v, 1, 2)
IsRoot(v) == Small(v)

Lookup(z, k) == {k[i].v : i \in {j \in DOMAIN k : k[j].z = z}}
Known(z) == Lookup(z, known) # {}
ValueAt(z) == CHOOSE v \in Lookup(z, known) : TRUE

Choices == {Mk(v[1], v[2], VDen) : v \in Values} \cup {NaN}

Init == /\ \E g \in Guesses, n \in MaxIters, w \in {NaN, Whole(0), Whole(3)} :
             par = [g |-> g, n |-> n, w |-> w]
        /\ z0 = Mk(par.g[1][1], par.g[1][2], 1)
        /\ z1 = Mk(par.g[2][1], par.g[2][2], 1)
        /\ f0 = NaN /\ f1 = NaN /\ left = par.n
        /\ known = <<>> /\ calls = 0 /\ st = "eval0" /\ res = Nowhere

(* evaluate the function at z: the value is the known one, the one at infinity or any choice *)
EvalTo(z, v) == IF z = Infty THEN v = par.w /\ UNCHANGED known
                ELSE IF Known(z) THEN v = ValueAt(z) /\ UNCHANGED known
                ELSE v \in Choices /\ known' = Append(known, [z |-> z, v |-> v])

Eval0 == /\ st = "eval0"
         /\ \E v \in Choices \cup {par.w} : EvalTo(z0, v) /\ f0' = v
         /\ calls' = calls + 1 /\ st' = "eval1" /\ UNCHANGED <<z0, z1, f1, left, res, par>>
Eval1 == /\ st = "eval1"
         /\ \E v \in Choices \cup {par.w} : EvalTo(z1, v) /\ f1' = v
         /\ calls' = calls + 1 /\ st' = "loop" /\ UNCHANGED <<z0, z1, f0, left, res, par>>

Fin(z) == z # Infty
(* any non-finite point is written Infty (infinite or NaN) *)
Secant == IF ~Fin(z0) \/ ~Fin(z1) \/ f0 = NaN \/ f1 = NaN THEN Infty
          ELSE IF f0 = f1 THEN Infty
          ELSE Div(Sub(Mul(z0, f1), Mul(z1, f0)), Sub(f1, f0))

Stop(s, r) == /\ st' = s /\ res' = r
              /\ PrintT("@@" \o ToJson([par |-> par, known |-> known, out |-> s, at |-> r, f |-> f1, calls |-> calls]))
              /\ UNCHANGED <<z0, z1, f0, f1, left, known, calls, par>>

Loop == /\ st = "loop"
        /\ IF left = 0 THEN Stop("fail", Nowhere)
           ELSE IF f1 = NaN THEN Stop("fail", Nowhere)
           ELSE IF Small(f1) THEN Stop("found", z1)
           ELSE /\ LET z2 == Secant IN
                   \E v \in Choices \cup {par.w} :
                      EvalTo(z2, v) /\ f1' = v /\ z1' = z2
                /\ z0' = z1 /\ f0' = f1
                /\ left' = left - 1 /\ calls' = calls + 1
                /\ UNCHANGED <<st, res, par>>
Next == Eval0 \/ Eval1 \/ Loop
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
Certified == st = "found" => /\ IsRoot(f1)
                             /\ res = z1
                             /\ (res # Infty => ValueAt(res) = f1)
Bounded == calls <= par.n + 2
ZeroNever == par.n = 0 => st # "found"
(* the first iterate below the tolerance, counting from the second guess, is the one returned *)
First == st = "found" => \A i \in DOMAIN known :
            (known[i].z # res /\ known[i].z # Mk(par.g[1][1], par.g[1][2], 1)) => ~Small(known[i].v)
=============================================================================
