------------------------------ MODULE Pipeline ------------------------------
(* The physical phase-diagram program (C17): its stages, the configuration object that changes state     *)
(* between them, and what it writes.                                                                     *)
(*                                                                                                       *)
(* An input holds three temperature grids and three grids of chemical potentials, each (min, max, step),  *)
(* in integer units.  Critical temperatures are not computed here: at every chemical potential the phase  *)
(* stages take some temperature of the grid - any of them (model checking), or the one the program        *)
(* reported (conformance).  Everything the program computes is a value of the library at a point           *)
(* (chemical potential, temperature) with either the original or the corrected quark masses; the          *)
(* specification says with which, where it is written, and that nothing else is.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Inputs,      \* a sequence of inputs
         Free,        \* TRUE: critical temperatures are arbitrary; FALSE: those of the input
         Flat         \* TRUE: the corrected critical temperatures, which nothing uses, are all equal

VARIABLES inp,        \* number of the input
          I,          \* the input
          stage,      \* position in Stages
          cfg,        \* the configuration object
          pos,        \* <<chemical potential, temperature>>: positions reached in the grids in use
          tcs,        \* critical temperatures found so far in this stage
          out         \* what was written, in order
vars == <<inp, I, stage, cfg, pos, tcs, out>>

(* ------------------------------------------------------------------ grids *)
Steps(g) == (2 * (g[2] - g[1]) + g[3]) \div (2 * g[3])     \* to the nearest step
Grid(g) == [k \in 1 .. Steps(g) + 1 |-> g[1] + (k - 1) * g[3]]

PB == INSTANCE PhaseBoundary WITH MuMax <- 0, TMax <- 0, pb <- <<>>, red <- <<>>, ended <- FALSE
Deconfined(b, mu, t) == PB!Deconfined(b, 2 * mu, 4 * t)
OnBoundary(b, mu, t) == \E i \in 1 .. Len(b) - 1 : PB!Segment(b, 2 * mu, i) /\ PB!Above(b[i], b[i + 1], 2 * mu, 4 * t) = 0

(* ------------------------------------------------------------------ stages *)
(* what: "l", "t" propagators, "ir" infrared limit, "phase" diagram, "correct" (no output), "fit"         *)
Stages == << [what |-> "l",       grid |-> "few"],
             [what |-> "t",       grid |-> "few"],
             [what |-> "ir",      grid |-> "more"],
             [what |-> "phase",   grid |-> "many"],
             [what |-> "correct", grid |-> "many"],
             [what |-> "phase",   grid |-> "many"],
             [what |-> "fit",     grid |-> "many"],
             [what |-> "l",       grid |-> "few"],
             [what |-> "t",       grid |-> "few"] >>
Done == stage > Len(Stages)
S == Stages[stage]
Ts(g) == Grid(I.temps[g])
Ms(g) == Grid(I.mus[g])

Init == /\ LET all == Inputs IN \E k \in DOMAIN all : inp = k /\ I = all[k]
        /\ stage = 1
        /\ cfg = [grid |-> "few", corrected |-> FALSE, pb |-> <<>>, name |-> "plain"]
        /\ pos = <<1, 1>>
        /\ tcs = <<>>
        /\ out = <<>>

(* which masses are used at a point *)
Which(mu, t) == IF cfg.corrected /\ Deconfined(cfg.pb, mu, t) THEN "corrected" ELSE "plain"
Here == LET mu == Ms(cfg.grid)[pos[1]]
            t == Ts(cfg.grid)[pos[2]] IN
        [what |-> S.what, name |-> cfg.name, mu |-> mu, t |-> t, cold |-> pos[2] = 1, which |-> Which(mu, t),
         tie |-> cfg.corrected /\ OnBoundary(cfg.pb, mu, t)]

NextStage == /\ stage' = stage + 1
             /\ pos' = <<1, 1>>
             /\ tcs' = <<>>
Enter(c) == cfg' = IF stage = Len(Stages) THEN c ELSE [c EXCEPT !.grid = Stages[stage + 1].grid]

(* one point: a file of propagators, a point of the infrared curve, a point of the curve to be maximized *)
Point == /\ ~Done /\ S.what \in {"l", "t", "ir", "phase"}
         /\ pos[1] <= Len(Ms(cfg.grid)) /\ pos[2] <= Len(Ts(cfg.grid))
         /\ out' = Append(out, Here)
         /\ pos' = <<pos[1], pos[2] + 1>>
         /\ UNCHANGED <<inp, I, stage, cfg, tcs>>
(* all temperatures done *)
Row == /\ ~Done /\ S.what \in {"l", "t", "ir"}
       /\ pos[1] <= Len(Ms(cfg.grid)) /\ pos[2] > Len(Ts(cfg.grid))
       /\ pos' = <<pos[1] + 1, 1>>
       /\ UNCHANGED <<inp, I, stage, cfg, tcs, out>>
Critical(k) == /\ ~Done /\ S.what = "phase"
               /\ pos[1] <= Len(Ms(cfg.grid)) /\ pos[2] > Len(Ts(cfg.grid))
               /\ IF Free
                  (* a boundary that vanishes from the start leaves nothing to classify with: not in the domain *)
                  THEN IF cfg.corrected THEN (Flat /\ pos[1] > 1) => Ts(cfg.grid)[k] = tcs[1][2]
                       ELSE pos[1] = 1 => k > 1
                  ELSE k = (IF cfg.corrected THEN I.tcc ELSE I.tc)[pos[1]]
               /\ tcs' = Append(tcs, <<Ms(cfg.grid)[pos[1]], Ts(cfg.grid)[k]>>)
               /\ pos' = <<pos[1] + 1, 1>>
               /\ UNCHANGED <<inp, I, stage, cfg, out>>
EndStage == /\ ~Done /\ S.what \in {"l", "t", "ir"}
            /\ pos[1] > Len(Ms(cfg.grid))
            /\ NextStage /\ Enter(cfg)
            /\ UNCHANGED <<inp, I, out>>
(* second derivatives from the points at distance two *)
Second(s) == [i \in 1 .. Len(s) - 4 |-> <<s[i + 2][1], s[i + 4][2] + s[i][2] - 2 * s[i + 2][2]>>]
EndPhase == /\ ~Done /\ S.what = "phase"
            /\ pos[1] > Len(Ms(cfg.grid))
            /\ out' = Append(out, [what |-> "tc", name |-> cfg.name, pb |-> tcs, d2 |-> Second(tcs)])
            /\ NextStage
            /\ Enter(IF cfg.corrected THEN cfg ELSE [cfg EXCEPT !.pb = tcs])
            /\ UNCHANGED <<inp, I>>
(* from here on: corrected masses where the uncorrected boundary says deconfined; the boundary is reduced *)
Correct == /\ ~Done /\ S.what = "correct"
           /\ NextStage
           /\ Enter([cfg EXCEPT !.corrected = TRUE, !.pb = PB!Reduced(cfg.pb), !.name = "corrected"])
           /\ UNCHANGED <<inp, I, out>>
FitStage == /\ ~Done /\ S.what = "fit"
            /\ out' = Append(out, [what |-> "fit", name |-> cfg.name, pb |-> cfg.pb])
            /\ NextStage /\ Enter(cfg)
            /\ UNCHANGED <<inp, I>>

Next == Point \/ Row \/ EndStage \/ EndPhase \/ Correct \/ FitStage \/ (\E k \in 1 .. IF Done THEN 0 ELSE Len(Ts(cfg.grid)) : Critical(k))
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ what holds *)
Files(n, w) == {out[i] : i \in {j \in DOMAIN out : out[j].name = n /\ out[j].what = w}}
Count(n, w) == Cardinality({j \in DOMAIN out : out[j].name = n /\ out[j].what = w})
Image(s) == {s[i] : i \in DOMAIN s}
Points(n, w) == {<<r.mu, r.t>> : r \in Files(n, w)}
(* exactly the prescribed grids, each point once, and no file written twice *)
Prescribed == Done =>
    /\ \A n \in {"plain", "corrected"}, w \in {"l", "t"} :
          /\ Points(n, w) = Image(Ms("few")) \X Image(Ts("few"))
          /\ Count(n, w) = Len(Ms("few")) * Len(Ts("few"))
    /\ Points("plain", "ir") = Image(Ms("more")) \X Image(Ts("more"))
    /\ Points("corrected", "ir") = {}
    /\ \A n \in {"plain", "corrected"} : Points(n, "phase") = Image(Ms("many")) \X Image(Ts("many"))
    /\ \A n \in {"plain", "corrected"} : Count(n, "tc") = 1
    /\ Count("corrected", "fit") = 1 /\ Count("plain", "fit") = 0
(* the uncorrected boundary, whole and reduced *)
Boundary == (CHOOSE r \in Files("plain", "tc") : TRUE).pb
(* the corrected masses exactly at the points of the corrected stages that are deconfined *)
WhichIsDeconfined == Done =>
    \A i \in DOMAIN out : out[i].what \in {"l", "t", "ir", "phase"} =>
        out[i].which = (IF out[i].name = "corrected" /\ Deconfined(PB!Reduced(Boundary), out[i].mu, out[i].t) THEN "corrected" ELSE "plain")
(* both polarizations of one point are computed with the same masses *)
Consistent == Done => \A r \in Files("corrected", "l") : \E q \in Files("corrected", "t") : q.mu = r.mu /\ q.t = r.t /\ q.which = r.which
(* what was fitted is what classified; the corrected diagram does not replace it *)
FitsBoundary == Done => \A r \in Files("corrected", "fit") : r.pb = PB!Reduced(Boundary)
(* cold points are computed at zero temperature, others are not *)
ColdIsZero == \A i \in DOMAIN out : out[i].what \in {"l", "t", "ir", "phase"} => (out[i].cold <=> out[i].t = 0)
(* nothing written is ever changed *)
AppendOnly == [][SubSeq(out', 1, Len(out)) = out]_vars

Emit == (Done /\ ~Free) => PrintT("@@" \o ToJson([inp |-> inp, out |-> out]))
=============================================================================
