---------------------------- MODULE Interference ----------------------------
(* Writers of the global settings against a running evaluation for a field configuration (C03).         *)
(*                                                                                                       *)
(* An evaluation takes Phases steps; other threads write registers before any of them.  A register holds  *)
(* "i" (the value it had when the evaluation was asked for), "c" (the value the configuration itself      *)
(* holds in that place) or "o" (another one).  The library as specified reads and writes no register.     *)
(* Next to it the module holds the ways in which a change could make evaluations and registers interfere: *)
(*   read   a register is read at some phase                                                              *)
(*   match  some phase depends on whether a register holds the configuration's value                      *)
(*   both   some phase depends on whether two registers do                                                *)
(*   swap   a register is overwritten by the configuration's value at one phase and put back at another   *)
(*   mix    a register is read at two phases, which are expected to agree                                 *)
(* For the library as specified every schedule gives the value of the configuration and leaves the        *)
(* registers as their writers left them.  For each of the others the schedules which expose it are        *)
(* printed; the driver replays on the code a set of schedules that exposes each of them several times.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Phases, MaxWrites

Regs == {"nc", "nf", "mq"}
Vals == {"c", "o"}
Ph   == 1 .. Phases
Write == [at : Ph, r : Regs, v : Vals]
Schedules == UNION {{s \in [1 .. n -> Write] : \A k \in 1 .. n - 1 : s[k].at <= s[k + 1].at} : n \in 0 .. MaxWrites}

NoFault == [k |-> "none", r |-> "nc", q |-> "nc", a |-> 0, b |-> 0]
Faults == {[k |-> "read", r |-> r, q |-> r, a |-> a, b |-> a] : r \in Regs, a \in Ph}
          \cup {[k |-> "match", r |-> r, q |-> r, a |-> a, b |-> a] : r \in Regs, a \in Ph}
          \cup {f \in {[k |-> "both", r |-> r, q |-> q, a |-> a, b |-> a] : r \in Regs, q \in Regs, a \in Ph} : f.r # f.q}
          \cup {f \in {[k |-> "swap", r |-> r, q |-> r, a |-> a, b |-> b] : r \in Regs, a \in Ph, b \in 2 .. Phases + 1} : f.a < f.b}
          \cup {f \in {[k |-> "mix", r |-> r, q |-> r, a |-> a, b |-> b] : r \in Regs, a \in Ph, b \in Ph} : f.a < f.b}

VARIABLES fault, sched, next,   \* next: number of the next write
          pc, reg, want,        \* want: the registers as their writers left them
          saved, got            \* got: what the result depends on besides the configuration
vars == <<fault, sched, next, pc, reg, want, saved, got>>

Init == /\ fault \in Faults \cup {NoFault}
        /\ sched \in Schedules
        /\ next = 1 /\ pc = 1
        /\ reg = [r \in Regs |-> "i"] /\ want = reg
        /\ saved = "-" /\ got = <<>>

Due == next <= Len(sched) /\ sched[next].at = pc
DoWrite == /\ Due
           /\ LET w == sched[next] IN reg' = [reg EXCEPT ![w.r] = w.v] /\ want' = [want EXCEPT ![w.r] = w.v]
           /\ next' = next + 1
           /\ UNCHANGED <<fault, sched, pc, saved, got>>

Yes(x) == IF x THEN "y" ELSE "n"
Look == CASE fault.k = "read"  -> reg[fault.r]
          [] fault.k = "match" -> Yes(reg[fault.r] = "c")
          [] fault.k = "both"  -> Yes(reg[fault.r] = "c" /\ reg[fault.q] = "c")
          [] OTHER -> "-"
Phase == /\ ~Due /\ pc <= Phases
         /\ pc' = pc + 1
         /\ IF fault.k = "swap"
            THEN /\ saved' = IF pc = fault.a THEN reg[fault.r] ELSE saved
                 /\ reg' = IF pc = fault.a THEN [reg EXCEPT ![fault.r] = "c"]
                           ELSE IF pc = fault.b THEN [reg EXCEPT ![fault.r] = saved] ELSE reg
                 /\ UNCHANGED got
            ELSE /\ got' = IF fault.k \in {"read", "match", "both"} /\ pc = fault.a THEN Append(got, Look)
                           ELSE IF fault.k = "mix" /\ pc = fault.b THEN Append(got, Yes(reg[fault.r] # saved)) ELSE got
                 /\ saved' = IF fault.k = "mix" /\ pc = fault.a THEN reg[fault.r] ELSE saved
                 /\ UNCHANGED reg
         /\ UNCHANGED <<fault, sched, next, want>>
Return == /\ pc = Phases + 1
          /\ reg' = IF fault.k = "swap" /\ fault.b = pc THEN [reg EXCEPT ![fault.r] = saved] ELSE reg
          /\ pc' = pc + 1
          /\ UNCHANGED <<fault, sched, next, want, saved, got>>
Next == DoWrite \/ Phase \/ Return
Spec == Init /\ [][Next]_vars

Done == pc = Phases + 2
(* what the result depends on when nothing is written *)
Alone == CASE fault.k = "read" -> <<"i">>
           [] fault.k \in {"match", "both", "mix"} -> <<"n">>
           [] OTHER -> <<>>
Exposed == got # Alone \/ reg # want
Specified == (fault = NoFault /\ Done) => ~Exposed
(* nothing but a write changes a register *)
Private == [][ fault = NoFault => \A r \in Regs : reg'[r] # reg[r] => want'[r] = reg'[r] ]_vars
(* without writes nothing can be seen: it takes a schedule *)
Hidden == (sched = <<>> /\ Done) => ~Exposed
Emit == Done => IF fault = NoFault THEN PrintT("@@" \o ToJson([schedule |-> sched]))
                ELSE IF Exposed THEN PrintT("@@" \o ToJson([fault |-> fault, exposedby |-> sched])) ELSE TRUE
=============================================================================
