------------------------------ MODULE Families ------------------------------
(* The web of correlator functions (C05).  A node is one function of the library together with the    *)
(* type of its arguments and with whether it is looked at with the gauge parameter put to zero.       *)
(* Every node has a symbolic value  base^e * s^k  (base: the inverse dressing of its family at its     *)
(* gauge parameter, s: the squared Euclidean momentum of its regime).  An edge is a law that connects *)
(* two functions; a walk along the laws accumulates a transformation, and the laws are coherent: every *)
(* walk from one function to another accumulates the same transformation, the quotient of their values.*)
(* The conformance driver replays every edge, on real numbers, on the library.                        *)
EXTENDS Denot, Json, Integers

Types == {"R", "C"}
(* low-level vacuum functions that exist in a plain form and in one with given logarithms *)
SepBlocks == {"gluon::f", "gluon::f_xi", "ghost::g", "ghost::g_xi"}

VARIABLES node, start, acc   \* acc: [e, k] accumulated from start to node: value(node) = value(start)^e * s^k

Fam(s) == [s EXCEPT !.obj = "inv"]
Corr(s, t, z) == [kind |-> "corr", s |-> s, ty |-> t, zero |-> z, blk |-> "-", sep |-> FALSE]
NoShape == [field |-> "-", fam |-> "-", reg |-> "-", pol |-> "-", temp |-> "-", gauge |-> "-", cross |-> FALSE, obj |-> "-"]
Block(b, sep, t) == [kind |-> "blk", s |-> NoShape, ty |-> t, zero |-> FALSE, blk |-> b, sep |-> sep]
(* the inverse dressing in terms of given logarithms, offered at low level for pure Yang-Mills only *)
SepInv(s, t, z) == [kind |-> "sepinv", s |-> s, ty |-> t, zero |-> z, blk |-> "-", sep |-> TRUE]

HasSep(s) == s.fam = "ym" /\ s.reg = "vac" /\ s.obj = "inv"
Nodes == {Corr(s, t, z) : s \in Shapes, t \in Types, z \in BOOLEAN}
         \cup {SepInv(s, t, z) : s \in {x \in Shapes : HasSep(x)}, t \in Types, z \in BOOLEAN}
         \cup {Block(b, p, t) : b \in SepBlocks, p \in BOOLEAN, t \in Types}
(* gauge parameter put to zero: only where there is one *)
Proper(n) == n.zero => n.s.gauge = "xi"
AllNodes == {n \in Nodes : Proper(n)}

Exp(obj) == IF obj = "inv" THEN 1 ELSE -1
Pow(obj) == IF obj = "pr" THEN -1 ELSE 0
(* the value of a node: which inverse dressing, to which power, times which power of s *)
Val(n) == IF n.kind = "blk" THEN [base |-> <<n.blk>>, e |-> 1, k |-> 0]
          ELSE [base |-> <<[n.s EXCEPT !.obj = "-", !.gauge = IF n.zero THEN "landau" ELSE @]>>,
                e |-> Exp(n.s.obj), k |-> Pow(n.s.obj)]

(* The laws: name, target, transformation x -> x^e * s^k *)
Law(l, t, e, k) == [law |-> l, to |-> t, e |-> e, k |-> k]
Obj(n, o) == [n EXCEPT !.s.obj = o]
Laws(n) ==
    {l \in
       (IF n.kind = "corr" THEN
          {Law("recip", Obj(n, "dr"), -1, 0) : x \in {1} \cap (IF n.s.obj = "inv" THEN {1} ELSE {})}
          \cup {Law("recip", Obj(n, "inv"), -1, 0) : x \in {1} \cap (IF n.s.obj = "dr" THEN {1} ELSE {})}
          \cup {Law("overs", Obj(n, "pr"), 1, -1) : x \in {1} \cap (IF n.s.obj = "dr" THEN {1} ELSE {})}
          \cup {Law("times", Obj(n, "dr"), 1, 1) : x \in {1} \cap (IF n.s.obj = "pr" THEN {1} ELSE {})}
          \cup {Law("gauge", [n EXCEPT !.zero = FALSE, !.s.gauge = "landau"], 1, 0) : x \in {1} \cap (IF n.zero THEN {1} ELSE {})}
          \cup (IF HasSep(n.s) THEN {Law("sep", [n EXCEPT !.kind = "sepinv", !.sep = TRUE], 1, 0)} ELSE {})
        ELSE IF n.kind = "blk" THEN {Law("sep", [n EXCEPT !.sep = ~n.sep], 1, 0)}
        ELSE {Law("plain", [n EXCEPT !.kind = "corr", !.sep = FALSE], 1, 0)}
             \cup {Law("gauge", [n EXCEPT !.zero = FALSE, !.s.gauge = "landau"], 1, 0) : x \in {1} \cap (IF n.zero THEN {1} ELSE {})})
       \cup {Law("embed", [n EXCEPT !.ty = "C"], 1, 0) : x \in {1} \cap (IF n.ty = "R" THEN {1} ELSE {})}
     : l.to \in AllNodes}

Init == /\ node \in AllNodes
        /\ start = node
        /\ acc = [e |-> 1, k |-> 0]
(* value = (v0^e s^k)^l.e * s^l.k *)
Step(l) == /\ node' = l.to
           /\ acc' = [e |-> acc.e * l.e, k |-> acc.k * l.e + l.k]
           /\ UNCHANGED start
Edge(l) == [from |-> node, to |-> l.to, law |-> l.law, e |-> l.e, k |-> l.k]
Next == \E l \in Laws(node) :
          /\ Step(l)
          /\ (node = start /\ acc = [e |-> 1, k |-> 0]) => PrintT("@@" \o ToJson(Edge(l)))
Spec == Init /\ [][Next]_<<node, start, acc>>

(* ---------------------------------------------------------------- properties of the web *)
(* every walk accumulates the quotient of the values of its ends *)
Coherent == /\ Val(node).base = Val(start).base
            /\ Val(node).e = Val(start).e * acc.e
            /\ Val(node).k = Val(start).k * acc.e + acc.k
(* no function is left out of the web *)
ASSUME \A n \in AllNodes : \/ Laws(n) # {} \/ (\E m \in AllNodes : \E l \in Laws(m) : l.to = n)
=============================================================================
