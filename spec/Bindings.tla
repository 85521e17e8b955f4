------------------------------ MODULE Bindings ------------------------------
(* Two faces of one library (C06): the native functions and the symbols exported to C.                *)
(*                                                                                                    *)
(* Static part: Mangle gives the exported name of a native path; a symbol is bound to the native      *)
(* instance with that name and the argument types the generated header declares.                      *)
(* Dynamic part: both faces live in one process and share one set of registers.  A step sets a        *)
(* register or evaluates a bound pair through either face; an evaluation denotes (function, arguments,*)
(* registers), whichever face it goes through.                                                        *)
(* The tables come from the header generated by the build and from the native interface.              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

Tables == JsonDeserialize(IOEnv.VERIF_TABLES)
Syms == Tables.syms        \* [name: path, types, args]
Nats == Tables.nats        \* [path, types, args]

Thermal == <<"low_level", "oneloop", "thermal">>
Starts(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
Drop(p, k) == SubSeq(p, k + 1, Len(p))
Renamed == [ x \in {"ym_dressing_inv_sep", "ym_dressing_inv_landau_sep", "dressing_inv_sep", "dressing_inv_landau_sep"} |->
               IF x = "ym_dressing_inv_sep" THEN "dressing_inv_sep"
               ELSE IF x = "ym_dressing_inv_landau_sep" THEN "dressing_inv_landau_sep" ELSE x ]
Mangle(p) ==
    IF p[1] = "common" \/ Starts(p, <<"low_level", "common">>) THEN <<p[Len(p)]>>
    ELSE IF Starts(p, Thermal)
         THEN IF Len(p) = 6 THEN <<"oneloop", p[5], p[4], p[6]>> ELSE <<"oneloop">> \o Drop(p, 3)
    ELSE IF Starts(p, <<"low_level", "oneloop">>)
         THEN IF p[Len(p)] \in DOMAIN Renamed THEN <<"ym", "oneloop", p[3], Renamed[p[Len(p)]]>> ELSE Drop(p, 1)
    ELSE p

Bound(i) == {j \in DOMAIN Nats : Mangle(Nats[j].path) = Syms[i].name /\ Nats[j].types = Syms[i].types}
Pairs == {<<i, CHOOSE j \in Bound(i) : TRUE>> : i \in {k \in DOMAIN Syms : Bound(k) # {}}}

(* ---------------------------------------------------------------- static checks *)
(* distinct native functions never share an exported name *)
ASSUME \A j, k \in DOMAIN Nats :
          (Mangle(Nats[j].path) = Mangle(Nats[k].path) /\ Nats[j].types = Nats[k].types) => Nats[j].path = Nats[k].path
ASSUME PrintT("@@" \o ToJson([pairs |-> Pairs, unbound |-> {i \in DOMAIN Syms : Bound(i) = {}}]))

(* ---------------------------------------------------------------- behaviours *)
Regs == {"nc", "nf", "mq", "tol", "it", "reg"}
Vals == {"d", "a", "b", "c"}
Faces == {"native", "foreign"}
CONSTANTS MaxSteps

VARIABLES r, seen, hist
vars == <<r, seen, hist>>
(* seen: what the getters of each face return *)
Init == /\ r = [x \in Regs |-> "d"]
        /\ seen = [f \in Faces |-> [x \in Regs |-> "d"]]
        /\ hist = <<>>

P(S) == RandomElement(S)
Set(f, x, v) == /\ r' = [r EXCEPT ![x] = v]
                /\ seen' = [g \in Faces |-> r']
                /\ hist' = Append(hist, [op |-> "set", face |-> f, reg |-> x, val |-> v, r |-> r'])
Eval(f, p, pt) == /\ UNCHANGED <<r, seen>>
                  /\ hist' = Append(hist, [op |-> "eval", face |-> f, pair |-> p, pt |-> pt, r |-> r])
Step == IF Len(hist) < MaxSteps
        THEN \E k \in {P(1..5)}, f \in {P(Faces)} :
             IF k <= 2 THEN \E x \in {P(Regs)}, v \in {P(Vals)} : Set(f, x, v)
             ELSE \E p \in {P(0..9999)}, pt \in {P(1..8)} : Eval(f, p, pt)
        ELSE /\ Len(hist) = MaxSteps
             /\ PrintT("@@" \o ToJson(hist))
             /\ hist' = Append(hist, "end") /\ UNCHANGED <<r, seen>>
Spec == Init /\ [][Step]_vars

Shared == \A f \in Faces : seen[f] = r
=============================================================================
