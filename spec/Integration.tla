---------------------------- MODULE Integration ----------------------------
(* Where the integration settings of the library take effect (C10).                                   *)
(*                                                                                                    *)
(* Three registers: the default tolerance, the default iteration limit, the Matsubara regulator;      *)
(* "d" is the initial value, "a" and "b" two others, chosen anew by the driver for every replay.       *)
(* A query is a kind of thermal integral, asked for without a method or with an explicit one.  What    *)
(* it denotes is a key: the quadrature rule really used, and the regulator when it matters.  Queries   *)
(* with equal keys must give one value, whatever lies between them.                                    *)
(*                                                                                                    *)
(* Behind the functions stands a machine with one more component than the registers: the rule that    *)
(* was built for the last call, which every call rebuilds (variable rule).  The abstract key may not   *)
(* depend on it.                                                                                      *)
EXTENDS Denot, Json

Vals  == {"d", "a", "b"}
Regs  == {"tol", "it", "reg"}
(* kinds of functions: ordinary integrals (general kinematics, vanishing momentum, finite or zero      *)
(* temperature, charge densities), the gluon and the ghost at vanishing frequency, and the functions   *)
(* in which no integral is done: integrands, vacuum functions, distributions, closed forms            *)
Kinds == {"plain", "zmgluon", "zmghost", "fixed"}
Integrals == Kinds \ {"fixed"}
(* "none": no method given. The others are arbitrary explicit methods, among them the two rules that   *)
(* the library itself would have used.                                                                *)
Explicit == {"rule", "gauss", "initial", "replaced"}
Methods  == Explicit \cup {"none"}

VARIABLES s, rule
vars == <<s, rule>>

States == [Regs -> Vals]
Initial == [r \in Regs |-> "d"]

(* a quadrature rule of the library: Gauss-Kronrod 7-15 with tolerance and limit, or a named one *)
GK(t, i) == [name |-> "G7K15", tol |-> t, it |-> i]
Named(n) == [name |-> n, tol |-> "-", it |-> "-"]
Default(st) == GK(st.tol, st.it)
(* the tolerance of the replacement: 1E-8 *)
Loose == "loose"

Rule(kind, meth, st) ==
    CASE kind = "fixed"    -> Named("-")
      [] meth = "initial"  -> GK("d", "d")
      [] meth = "replaced" -> GK(Loose, "d")
      [] meth \in {"rule", "gauss"} -> Named(meth)
      [] meth = "none" -> IF kind = "zmgluon" /\ st.tol = "d" /\ st.it = "d" THEN GK(Loose, "d") ELSE Default(st)
Key(kind, meth, st) == [kind |-> kind, rule |-> Rule(kind, meth, st), reg |-> IF kind \in {"plain", "fixed"} THEN "-" ELSE st.reg]

(* ---------------------------------------------------------------- the functions as built *)
(* They fetch the default method first and then decide by what it says. *)
Fetch(st) == Default(st)
BuiltRule(kind, meth, st) ==
    IF meth # "none" \/ kind = "fixed" THEN Rule(kind, meth, st)
    ELSE LET f == Fetch(st) IN
         IF kind = "zmgluon" /\ f.tol = "d" THEN (IF f.it = "d" THEN [f EXCEPT !.tol = Loose] ELSE f) ELSE f

Init == /\ s = Initial
        /\ rule = Default(Initial)

Write(r, v) ==
    /\ s' = [s EXCEPT ![r] = v]
    /\ UNCHANGED rule
    /\ (rule = Default(Initial)) => PrintT("@@" \o ToJson([edge |-> TRUE, pre |-> s, reg |-> r, val |-> v, post |-> s']))
Query(kind, meth) ==
    /\ rule' = BuiltRule(kind, meth, s)
    /\ UNCHANGED s
Next == \/ \E r \in Regs, v \in Vals : Write(r, v)
        \/ \E k \in Kinds, m \in Methods : Query(k, m)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
TypeOK == s \in States
(* what is built is what is specified *)
Faithful == \A k \in Kinds, m \in Methods : BuiltRule(k, m, s) = Rule(k, m, s)
(* an explicit method is honored irrespective of the defaults *)
Honored == \A k \in Kinds, m \in Explicit, t \in States : s.reg = t.reg => Key(k, m, s) = Key(k, m, t)
(* without a method, a function is its counterpart called with the default method ... *)
Counterpart == \A k \in Integrals : (k # "zmgluon" \/ s.tol # "d" \/ s.it # "d") => Rule(k, "none", s) = Default(s)
(* ... except at the initial values, where the looser tolerance is used by the zero-frequency gluon only *)
Replacement == \A k \in Kinds : (k = "zmgluon" /\ s.tol = "d" /\ s.it = "d") <=> Rule(k, "none", s) = GK(Loose, "d")
(* the regulator reaches the zero-frequency functions and only them *)
RegOnly == \A t \in States : (s.tol = t.tol /\ s.it = t.it /\ s.reg # t.reg) =>
              \A m \in Methods : /\ Key("plain", m, s) = Key("plain", m, t)
                                 /\ Key("zmgluon", m, s) # Key("zmgluon", m, t)
                                 /\ Key("zmghost", m, s) # Key("zmghost", m, t)
(* both defaults reach every function that is given no method *)
Reach == \A k \in Integrals, t \in States : (s.reg = t.reg /\ (s.tol # t.tol \/ s.it # t.it)) => Key(k, "none", s) # Key(k, "none", t)
(* and nothing else *)
Untouched == \A t \in States : Key("fixed", "none", s) = Key("fixed", "none", t)
(* queries change nothing that later queries can see *)
Pure == [][\A r \in Regs : (s'[r] # s[r]) => rule' = rule]_vars

(* ---------------------------------------------------------------- for the driver *)
KindOf(sh) == IF sh.reg # "zm" THEN "plain" ELSE IF sh.field = "ghost" THEN "zmghost" ELSE "zmgluon"
Row(st) == [node |-> st, rules |-> [k \in Kinds |-> Rule(k, "none", st)]]
ASSUME \A st \in States : PrintT("@@" \o ToJson([edge |-> FALSE, row |-> Row(st)]))
(* the correlators as sums of integrals: registers nc = 3, nf = 1, one quark flavor of mass 1; a       *)
(* configuration with quarks of masses 1 and 2                                                        *)
R0 == [nc |-> 3, nf |-> 1]
C0 == [nc |-> 3, quarks |-> <<<<2, 1>>, <<1, 2>>>>]
ASSUME \A sh \in ThermalShapes : PrintT("@@" \o ToJson([edge |-> FALSE, shape |-> sh, kind |-> KindOf(sh), terms |-> Inv(sh, R0, 1, C0)]))
=============================================================================
