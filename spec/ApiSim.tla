------------------------------- MODULE ApiSim -------------------------------
(* Random user programs over Api.tla: every step is one call of the library.  A finished program is    *)
(* printed with, for every step, the state the library must be in afterwards and, for a query, the    *)
(* denotation of the returned value (ideal, and as built where it differs: finding D1).               *)
EXTENDS Api

CONSTANTS MaxSteps, Mode, Points

VARIABLES hist, n,
          focus    \* a few shapes, points and masses to which a program returns again and again
svars == <<r, ratio, cfgs, hist, n, focus>>

P(S) == RandomElement(S)

(* the quark mass argument of a global-settings query; configurations carry their own *)
QueryShapes == CASE Mode = "global"   -> {s \in Shapes : s.fam # "cfg"}
                 [] Mode = "isolated" -> {s \in Shapes : s.fam = "cfg"}
                 [] Mode = "value"    -> {s \in Shapes : s.fam = "cfg" \/ (s.fam = "qcd" /\ s.field = "gluon")}

SInit == /\ Init /\ hist = <<>> /\ n = 0 /\ focus = <<>>

(* drawn in the first step (an initial predicate would be enumerated, not sampled) *)
DrawFocus == \E a \in {P(QueryShapes)}, b \in {P(QueryShapes)}, c \in {P(QueryShapes)},
                x \in {P(Points)}, y \in {P(Points)}, m \in {P(Masses)} :
             focus' = [shapes |-> {a, b, c}, points |-> {x, y}, masses |-> {m}]

Rec(op, args) == [op |-> op, a |-> args, r |-> r', cfgs |-> cfgs']
Log(op, args) == hist' = Append(hist, Rec(op, args)) /\ n' = n + 1 /\ UNCHANGED focus

(* \E x \in {P(S)} draws once and binds the value (a LET would be drawn anew at every use) *)
(* An excursion: the register (or field) visits a degenerate value, possibly while something is evaluated   *)
(* with it, and then gets its new value.  Only the last assignment may be visible afterwards.          *)
Degenerate == {"0", "1", "4294967295"}
Regs == \E k \in {P(1..5)} :
        CASE k = 1 -> \E v \in {P(NcVals)} : SetNc(v) /\ Log("nc", <<v>>)
          [] k = 2 -> \E v \in {P(NfVals)} : SetNf(v) /\ Log("nf", <<v>>)
          [] k = 3 -> \E v \in {P(Masses)} : SetMq(v) /\ Log("mq", <<v>>)
          [] k = 4 -> \E v \in {P(NcVals)}, d \in {P(Degenerate)}, e \in {P(Points)} :
                        SetNc(v) /\ Log("xnc", [v |-> v, d |-> d, pt |-> e, s |-> P({s \in QueryShapes : s.reg = "vac"}), i |-> IF Live = {} THEN 0 ELSE P(Live)])
          [] OTHER -> \E v \in {P(NfVals)}, d \in {P(Degenerate)}, e \in {P(Points)} :
                        SetNf(v) /\ Log("xnf", [v |-> v, d |-> d, pt |-> e, s |-> P({s \in QueryShapes : s.reg = "vac"}), i |-> IF Live = {} THEN 0 ELSE P(Live)])

(* (dummy parameters: TLC evaluates parameterless constant definitions only once)
   quark lists with repeated masses and zero flavors are frequent by construction of the value sets *)
RandEntry(x) == <<P(NfVals), P(Masses)>>
RECURSIVE RandList(_)
RandList(k) == IF k = 0 THEN <<>> ELSE <<RandEntry(k)>> \o RandList(k - 1)
RandQuarks(x) == RandList(P(0..MaxQ))
RandConfig(x) == [nc |-> P(NcVals), g |-> P(Gluons), quarks |-> RandQuarks(x)]

Build == \E i \in {P(Ids)}, c \in {RandConfig(n)} : New(i, c) /\ Log("new", <<i, c>>)
Edit ==
    \E i \in {P(Live)}, k \in {P(1..10)} :
        CASE k = 9 -> \E v \in {P(NcVals)}, d \in {P(Degenerate)}, e \in {P(Points)} :
                        AssignNc(i, v) /\ Log("xanc", [v |-> v, d |-> d, pt |-> e, s |-> P({s \in QueryShapes : s.reg = "vac"}), i |-> i])
          [] k = 10 -> \E v \in {P(Gluons)}, e \in {P(Points)} :
                        AssignG(i, v) /\ Log("xag", [v |-> v, d |-> "0", pt |-> e, s |-> P({s \in QueryShapes : s.reg = "vac"}), i |-> i])
          [] k = 1 -> \E v \in {P(NcVals)} : AssignNc(i, v) /\ Log("anc", <<i, v>>)
          [] k = 2 -> \E v \in {P(Gluons)} : AssignG(i, v) /\ Log("ag", <<i, v>>)
          [] k = 3 -> \E q \in {RandQuarks(n)} : AssignQuarks(i, q) /\ Log("aq", <<i, q>>)
          [] k = 4 /\ Len(cfgs[i].quarks) < MaxQ -> \E e \in {RandEntry(n)} : Push(i, e) /\ Log("push", <<i, e>>)
          [] k = 5 /\ Len(cfgs[i].quarks) > 0 -> Pop(i) /\ Log("pop", <<i>>)
          [] k = 6 /\ Len(cfgs[i].quarks) > 0 ->
                 \E x \in {P(DOMAIN cfgs[i].quarks)}, e \in {RandEntry(n)} : SetEntry(i, x, e) /\ Log("setq", <<i, x, e>>)
          (* a permutation of the entries; a split of the first one: results must not move *)
          [] k = 7 /\ Len(cfgs[i].quarks) > 1 ->
                 LET q == Rev(cfgs[i].quarks) IN AssignQuarks(i, q) /\ Log("aq", <<i, q>>)
          [] k = 8 /\ Len(cfgs[i].quarks) > 0 /\ Len(cfgs[i].quarks) < MaxQ ->
                 LET q == SplitAll(<<Head(cfgs[i].quarks)>>) \o Tail(cfgs[i].quarks) IN AssignQuarks(i, q) /\ Log("aq", <<i, q>>)
          [] OTHER -> \E j \in {P(Ids)} : Clone(j, i) /\ Log("clone", <<j, i>>)

Query ==
    \E near \in {P(1..4) # 1} :
    \E s \in {P(IF near THEN focus.shapes ELSE QueryShapes)}, i \in {IF Live = {} THEN 1 ELSE P(Live)},
       m \in {P(IF near THEN focus.masses ELSE Masses)}, pt \in {P(IF near THEN focus.points ELSE Points)}, g \in {P(Gluons)} :
    LET ideal == Inv(s, r, m, cfgs[i])
        built == InvBuilt(s, r, ratio, m, cfgs[i]) IN
    /\ UNCHANGED vars
    /\ Log("q", [s |-> s, cfg |-> i, mq |-> m, g |-> IF s.fam = "cfg" THEN cfgs[i].g ELSE g, pt |-> pt,
                 terms |-> ideal, built |-> built])
LowQuery ==
    \E w \in {LET x == P(1..6) IN <<"free", "free", "free", "quark", "quark", "density">>[x]}, k \in {P(0..9999)}, pt \in {P(Points)} :
    /\ UNCHANGED vars
    /\ Log("low", [w |-> w, k |-> k, pt |-> pt, term |-> Low(w, r)])

SNext ==
    IF n >= MaxSteps
    THEN /\ n = MaxSteps
         /\ PrintT("@@" \o ToJson(hist))
         /\ n' = n + 1
         /\ UNCHANGED <<r, ratio, cfgs, hist, focus>>
    ELSE IF n = 0 THEN DrawFocus /\ n' = 1 /\ UNCHANGED <<r, ratio, cfgs, hist>>
    ELSE \E k \in {P(1..10)} :
         CASE Mode = "global" -> IF k <= 3 THEN Regs ELSE IF k <= 7 THEN Query ELSE LowQuery
           [] Mode = "isolated" -> IF Live = {} \/ k = 1 THEN Build ELSE IF k <= 5 THEN Regs ELSE Query
           [] Mode = "value" -> IF Live = {} \/ k = 1 THEN Build
                                ELSE IF k = 2 THEN Regs ELSE IF k <= 5 THEN Edit ELSE Query
SSpec == SInit /\ [][SNext]_svars
=============================================================================
