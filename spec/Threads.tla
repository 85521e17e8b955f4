------------------------------- MODULE Threads -------------------------------
(* Evaluations on several threads, and one after the other (C18).                                      *)
(*                                                                                                    *)
(* A query has N slots (the function and its arguments); its value is the query itself, an injective   *)
(* stand-in.  An evaluation takes Phases steps, and evaluations of other threads may run between them. *)
(* The library is pure: it has no hidden state.  Next to it the module contains the hidden states a    *)
(* change could introduce (`fault`): caches whose key forgets a slot, of the last call or of all       *)
(* calls, shared or per thread, and scratch space shared between evaluations.  For the pure library    *)
(* every schedule returns the solo values; and the schedules that are replayed on the code are shown   *)
(* to expose every one of those faults, whichever slot it concerns.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Phases, Free       \* Free: explore arbitrary schedules of that many evaluations (0: the walk)

Slots == 1 .. N
Base == [i \in Slots |-> 0]
Flip(i) == [Base EXCEPT ![i] = 1]
Queries == {Base} \cup {Flip(i) : i \in Slots}
NoQ == [i \in Slots |-> 9]

(* an event of a schedule: thread, query, and for the walk the evaluation that runs in between *)
Call(q) == [q |-> q, at |-> 0, by |-> NoQ]
Nest(q, k, p) == [q |-> q, at |-> k, by |-> p]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
WalkSlot(i) == <<Call(Base), Call(Flip(i)), Call(Base)>>
               \o [k \in 1 .. Phases |-> Nest(Base, k, Flip(i))]
               \o [k \in 1 .. Phases |-> Nest(Flip(i), k, Base)]
Walk == Concat([i \in Slots |-> WalkSlot(i)])

Faults == {[kind |-> "none", slot |-> 0]} \cup
          [kind : {"last-call", "table", "scratch", "per-thread"}, slot : Slots]

VARIABLES fault, memo, scratch, pos, run, exposed, between
(* run: per thread, the evaluation in progress <<query, phase>> or <<>> *)
vars == <<fault, memo, scratch, pos, run, exposed, between>>
Threads_ == {1, 2}

Init == /\ fault \in Faults
        /\ memo = [t \in Threads_ |-> {}]
        /\ scratch = 9
        /\ pos = 1
        /\ run = [t \in Threads_ |-> <<>>]
        /\ exposed = FALSE /\ between = 0

Key(q) == [q EXCEPT ![fault.slot] = 9]
Cache(t) == memo[IF fault.kind = "per-thread" THEN t ELSE 1]
Hit(t, q) == {e \in Cache(t) : e.key = Key(q)}
(* what an evaluation of q on thread t returns *)
Value(t, q) == CASE fault.kind = "none" -> q
                 [] fault.kind = "scratch" -> [q EXCEPT ![fault.slot] = scratch]
                 [] OTHER -> IF Hit(t, q) = {} THEN q ELSE (CHOOSE e \in Hit(t, q) : TRUE).value
Remember(t, q) ==
    IF fault.kind \in {"none", "scratch"} THEN UNCHANGED memo
    ELSE LET c == IF fault.kind = "per-thread" THEN t ELSE 1
             e == [key |-> Key(q), value |-> Value(t, q)] IN
         memo' = [memo EXCEPT ![c] = IF fault.kind = "last-call" THEN {e} ELSE @ \cup {e}]

Start(t, q) == /\ run[t] = <<>>
               /\ run' = [run EXCEPT ![t] = <<q, 1>>]
               /\ scratch' = IF fault.kind = "scratch" THEN q[fault.slot] ELSE scratch
               /\ UNCHANGED <<fault, memo, exposed>>
Step(t) == /\ run[t] # <<>> /\ run[t][2] < Phases
           /\ run' = [run EXCEPT ![t][2] = @ + 1]
           /\ UNCHANGED <<fault, memo, scratch, exposed, pos>>
Finish(t) == /\ run[t] # <<>> /\ run[t][2] = Phases
             /\ exposed' = (exposed \/ Value(t, run[t][1]) # run[t][1])
             /\ Remember(t, run[t][1])
             /\ run' = [run EXCEPT ![t] = <<>>]
             /\ UNCHANGED <<fault, scratch>>

(* arbitrary schedules *)
FreeNext == \/ \E t \in Threads_, q \in Queries : pos <= Free /\ Start(t, q) /\ pos' = pos + 1
            \/ \E t \in Threads_ : Step(t)
            \/ \E t \in Threads_ : Finish(t) /\ UNCHANGED pos

(* the walk: thread 1 evaluates; where an event says so, thread 2 runs a whole evaluation in between *)
Ev == Walk[pos]
Over == pos > Len(Walk) /\ run[1] = <<>>
Due == ~Over /\ Ev.at > 0 /\ run[1] # <<>> /\ run[1][2] = Ev.at /\ between = 0
WalkNext ==
    \/ ~Over /\ run[1] = <<>> /\ Start(1, Ev.q) /\ UNCHANGED <<pos, between>>
    \/ Due /\ run[2] = <<>> /\ Start(2, Ev.by) /\ UNCHANGED <<pos, between>>
    \/ run[2] # <<>> /\ Step(2) /\ UNCHANGED between
    \/ Finish(2) /\ between' = 1 /\ UNCHANGED pos
    \/ ~Due /\ run[2] = <<>> /\ Step(1) /\ UNCHANGED between
    \/ ~Due /\ run[2] = <<>> /\ Finish(1) /\ pos' = pos + 1 /\ between' = 0

Next == IF Free > 0 THEN FreeNext /\ UNCHANGED between ELSE WalkNext
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- what holds *)
(* without a fault every schedule returns the solo values *)
Pure == fault.kind = "none" => ~exposed
(* the walk exposes every fault *)
WalkExposes == (Free = 0 /\ Over /\ fault.kind # "none") => exposed
(* one line per walk: the events, as the slot that differs and the phase of the evaluation in between *)
Which(q) == IF q = NoQ THEN -1 ELSE IF q = Base THEN 0 ELSE CHOOSE i \in Slots : q = Flip(i)
Emit == (Free = 0 /\ Over /\ fault.kind = "none") =>
          PrintT("@@" \o ToJson([n |-> N, walk |-> [k \in 1 .. Len(Walk) |-> [q |-> Which(Walk[k].q), at |-> Walk[k].at, by |-> Which(Walk[k].by)]]]))
=============================================================================
