------------------------------ MODULE Settings ------------------------------
(* The process-wide settings of the library (qcd-sme/src/consts.rs) and the two interfaces through   *)
(* which they are changed.  Every setter is one atomic action, as in the code: the settings are plain *)
(* words and the documentation makes the caller responsible for not racing on them.                  *)
(*                                                                                                    *)
(* Values are abstract: "d" is the initial value of a register, "a", "b" two further acceptable       *)
(* values, "x" a value the setter must refuse.  The conformance driver chooses the concrete numbers   *)
(* behind them anew for every pass over the state graph.                                              *)
EXTENDS Naturals, Sequences, TLC, Json

Regs   == {"nc", "nf", "mq", "tol", "it", "reg"}
Good   == {"d", "a", "b"}
Via    == {"rust", "c"}
(* only these two setters refuse anything *)
Bad(r) == IF r \in {"tol", "reg"} THEN {"x"} ELSE {}

VARIABLES reg,      \* what the getters return
          ratio     \* the cached <<nf, nc>> whose quotient multiplies the vacuum quark loop
vars == <<reg, ratio>>

TypeOK == /\ reg \in [Regs -> Good]
          /\ ratio \in Good \X Good

Init == /\ reg = [r \in Regs |-> "d"]
        /\ ratio = <<"d", "d">>

Emit(a) == PrintT("@@" \o ToJson([pre |-> reg, act |-> a, post |-> reg']))

(* The setter accepts the value: this register changes, no other does; the ratio is recomputed from  *)
(* the registers by the two setters that influence it.                                               *)
Accept(r, v, via) ==
    /\ reg' = [reg EXCEPT ![r] = v]
    /\ ratio' = IF r \in {"nc", "nf"} THEN <<reg'["nf"], reg'["nc"]>> ELSE ratio
    /\ Emit([op |-> "set", reg |-> r, val |-> v, via |-> via])

(* The setter refuses the value: nothing changes. *)
Refuse(r, v, via) ==
    /\ v \in Bad(r)
    /\ UNCHANGED vars
    /\ Emit([op |-> "refuse", reg |-> r, val |-> v, via |-> via])

Next == \E r \in Regs, via \in Via :
           \/ \E v \in Good : Accept(r, v, via)
           \/ \E v \in Bad(r) : Refuse(r, v, via)

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
(* The integration method used when none is given is a function of two of the registers. *)
Method == <<"G7K15", reg["tol"], reg["it"]>>

RatioCoherent == ratio = <<reg["nf"], reg["nc"]>>
NeverBad      == \A r \in Regs : reg[r] # "x"

(* A step changes at most one register, and Refuse changes none. *)
OneAtATime == [][\E r \in Regs : \A q \in Regs \ {r} : reg'[q] = reg[q]]_vars
=============================================================================
