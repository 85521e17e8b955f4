-------------------------------- MODULE Api --------------------------------
(* The library as its user sees it: process-wide registers, field configurations as plain values, and *)
(* functions whose results are the denotations of Denot.tla.  Queries have no effect on the state.    *)
EXTENDS Denot, Json

CONSTANTS NcVals, NfVals,     \* values of the registers and of the fields of a configuration
          Masses, Gluons,     \* symbolic quark and gluon masses
          Ids,                \* configuration variables of the user's program
          MaxQ,               \* entries of a quark list
          D,                  \* a common multiple of NcVals
          Leak                \* TRUE: the code as built (finding D1); FALSE: the ideal

VARIABLES r,       \* [nc, nf, mq]: the registers
          ratio,   \* <<nf, nc>> as cached by the setters
          cfgs     \* [Ids -> configuration or Null]
vars == <<r, ratio, cfgs>>

Null == [nc |-> 0, g |-> 0, quarks |-> <<>>]
Entries == NfVals \X Masses
QLists == UNION {[1..k -> Entries] : k \in 0..MaxQ}
Configs == [nc : NcVals, g : Gluons, quarks : QLists]

Init == /\ r = [nc |-> 3, nf |-> 1, mq |-> 0]
        /\ ratio = <<1, 3>>
        /\ cfgs = [i \in Ids |-> Null]

SetNc(v) == /\ r' = [r EXCEPT !.nc = v]
            /\ ratio' = <<r.nf, v>>
            /\ UNCHANGED cfgs
SetNf(v) == /\ r' = [r EXCEPT !.nf = v]
            /\ ratio' = <<v, r.nc>>
            /\ UNCHANGED cfgs
SetMq(v) == /\ r' = [r EXCEPT !.mq = v]
            /\ UNCHANGED <<ratio, cfgs>>

Live == {i \in Ids : cfgs[i] # Null}
New(i, c)    == cfgs' = [cfgs EXCEPT ![i] = c] /\ UNCHANGED <<r, ratio>>
Clone(i, j)  == cfgs' = [cfgs EXCEPT ![i] = cfgs[j]] /\ UNCHANGED <<r, ratio>>
AssignNc(i, v)     == New(i, [cfgs[i] EXCEPT !.nc = v])
AssignG(i, v)      == New(i, [cfgs[i] EXCEPT !.g = v])
AssignQuarks(i, q) == New(i, [cfgs[i] EXCEPT !.quarks = q])
Push(i, e)         == Len(cfgs[i].quarks) < MaxQ /\ New(i, [cfgs[i] EXCEPT !.quarks = Append(@, e)])
Pop(i)             == Len(cfgs[i].quarks) > 0 /\ New(i, [cfgs[i] EXCEPT !.quarks = SubSeq(@, 1, Len(@) - 1)])
SetEntry(i, k, e)  == k \in DOMAIN cfgs[i].quarks /\ New(i, [cfgs[i] EXCEPT !.quarks[k] = e])

Next == \/ \E v \in NcVals : SetNc(v)
        \/ \E v \in NfVals : SetNf(v)
        \/ \E v \in Masses : SetMq(v)
        \/ \E i \in Ids, c \in Configs : New(i, c)
        \/ \E i \in Ids, j \in Live : Clone(i, j)
        \/ \E i \in Live : \/ \E v \in NcVals : AssignNc(i, v)
                           \/ \E v \in Gluons : AssignG(i, v)
                           \/ \E e \in Entries : Push(i, e)
                           \/ Pop(i)
                           \/ \E k \in 1..MaxQ, e \in Entries : SetEntry(i, k, e)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- what a query returns *)
Denoted(s, mq, i) == IF Leak THEN InvBuilt(s, r, ratio, mq, cfgs[i]) ELSE Inv(s, r, mq, cfgs[i])

(* shapes up to the features the denotation looks at *)
CoreShapes == {s \in Shapes : s.obj = "inv" /\ s.reg \in {"vac", "gen"} /\ s.pol \in {"-", "l"}}
QcdShapes == {s \in CoreShapes : s.fam = "qcd"}
CfgShapes == {s \in CoreShapes : s.fam = "cfg"}

(* ---------------------------------------------------------------- properties *)
(* C02: what the code computes from its registers and cache is the ideal function of the registers.   *)
RatioCoherent == ratio = <<r.nf, r.nc>>
CurrentSettings == \A s \in QcdShapes, m \in Masses :
                      Same(InvBuilt(s, r, ratio, m, Null), Inv(s, r, m, Null), D)
(* pure Yang-Mills when there are no flavors *)
NoFlavors == r.nf = 0 => \A s \in QcdShapes, m \in Masses :
                Same(Inv(s, r, m, Null), IF s.field = "ghost" THEN GhostInv(s) ELSE GluonInv(s, <<>>, 1, 1), D)

(* C04 *)
Perm(q, k) == [i \in DOMAIN q |-> q[((i + k - 1) % Len(q)) + 1]]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
DropZero(q) == SelectSeq(q, LAMBDA e : e[1] # 0)
RECURSIVE SplitAll(_)
SplitAll(q) == IF q = <<>> THEN <<>>
               ELSE (IF Head(q)[1] > 1 THEN <<<<1, Head(q)[2]>>, <<Head(q)[1] - 1, Head(q)[2]>>>> ELSE <<Head(q)>>)
                    \o SplitAll(Tail(q))
WithQ(c, q) == [c EXCEPT !.quarks = q]
DC(s, c) == IF Leak THEN InvBuilt(s, r, ratio, 0, c) ELSE Inv(s, r, 0, c)
Additive == \A i \in Live, s \in CfgShapes :
    LET c == cfgs[i]
        q == c.quarks
        base == DC(s, c) IN
    /\ Same(base, DC(s, WithQ(c, Rev(q))), D)
    /\ q # <<>> => \A k \in DOMAIN q : Same(base, DC(s, WithQ(c, Perm(q, k))), D)
    /\ Same(base, DC(s, WithQ(c, DropZero(q))), D)
    /\ Same(base, DC(s, WithQ(c, SplitAll(q))), D)
OneEntry == \A i \in Live, s \in CfgShapes :
    LET c == cfgs[i] IN
    (Len(c.quarks) = 1 /\ c.nc = r.nc /\ c.quarks[1][1] = r.nf) =>
        Same(DC(s, c), Inv([s EXCEPT !.fam = "qcd"], r, c.quarks[1][2], Null), D)

(* C03: a step that changes a register changes no result for a configuration, and a step on one       *)
(* configuration changes no result for another.                                                       *)
NonInterference ==
    [][ \A i \in Ids : (cfgs'[i] = cfgs[i] /\ i \in Live) =>
          \A s \in CfgShapes : Same(DC(s, cfgs[i]), DC(s, cfgs[i])', D) ]_vars
=============================================================================
