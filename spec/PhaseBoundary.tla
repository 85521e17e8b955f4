--------------------------- MODULE PhaseBoundary ---------------------------
(* Phase boundaries as the workflow builds and uses them (C15).                                        *)
(*                                                                                                    *)
(* A boundary is a sequence of points (chemical potential, critical temperature) with growing          *)
(* chemical potentials, appended one at a time.  Next to it the state holds what a scan maintains:     *)
(* the reduced boundary and whether it has ended.  The scan is compared with the declarative           *)
(* definitions; the classification of every point of a finer grid is what is replayed on the code.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MuMax, TMax

VARIABLES pb, red, ended
vars == <<pb, red, ended>>

Mus == 0 .. MuMax
Ts  == 0 .. TMax

Init == pb = <<>> /\ red = <<>> /\ ended = FALSE

Add(mu, t) ==
    /\ IF pb = <<>> THEN TRUE ELSE mu > pb[Len(pb)][1]
    /\ pb' = Append(pb, <<mu, t>>)
    /\ ended' = (ended \/ t = 0)
    /\ red' = IF ended' THEN red ELSE Append(red, <<mu, t>>)
Next == \E mu \in Mus, t \in Ts : Add(mu, t)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- declarative definitions *)
Prefixes(s) == {SubSeq(s, 1, k) : k \in 0 .. Len(s)}
NoZero(s) == \A i \in 1 .. Len(s) : s[i][2] # 0
Reduced(s) == CHOOSE r \in Prefixes(s) : NoZero(r) /\ \A q \in Prefixes(s) : NoZero(q) => Len(q) <= Len(r)

(* Queries: chemical potentials in halves, temperatures in quarters.  8 * (mu1 - mu0) times the         *)
(* difference between the temperature and the interpolated one, all integers.                          *)
QMu == -1 .. 2 * MuMax + 2
QT  == 0 .. 4 * TMax + 1
Above(a, b, m, t) == 2 * t * (b[1] - a[1]) - (8 * a[2] * (b[1] - a[1]) + 4 * (b[2] - a[2]) * (m - 2 * a[1]))

Refused(s, m) == s = <<>> \/ m < 2 * s[1][1]
Segment(s, m, i) == 2 * s[i][1] <= m /\ m <= 2 * s[i + 1][1]
Deconfined(s, m, t) ==
    \/ m > 2 * s[Len(s)][1]
    \/ Len(s) = 1 /\ m = 2 * s[1][1] /\ t > 4 * s[1][2]
    \/ \E i \in 1 .. Len(s) - 1 : Segment(s, m, i) /\ Above(s[i], s[i + 1], m, t) > 0

(* ---------------------------------------------------------------- the scan *)
(* from lower to higher chemical potentials, up to the first point that is not below                   *)
RECURSIVE Scan(_, _, _, _)
Scan(s, i, m, t) ==
    IF i > Len(s) THEN TRUE
    ELSE IF 2 * s[i][1] = m THEN t > 4 * s[i][2]
    ELSE IF 2 * s[i][1] > m THEN Above(s[i - 1], s[i], m, t) > 0
    ELSE Scan(s, i + 1, m, t)

(* ---------------------------------------------------------------- what holds *)
ReduceIsScan == red = Reduced(pb)
Idempotent   == Reduced(red) = red
ScanIsDeclarative == \A m \in QMu, t \in QT : ~Refused(red, m) => (Scan(red, 1, m, t) = Deconfined(red, m, t))
Monotone == \A m \in QMu, t \in QT : (~Refused(red, m) /\ t + 1 \in QT /\ Deconfined(red, m, t)) => Deconfined(red, m, t + 1)
BoundaryConfined == \A i \in 1 .. Len(red) : ~Deconfined(red, 2 * red[i][1], 4 * red[i][2])
ColdConfined == \A m \in QMu : ~Refused(red, m) => (Deconfined(red, m, 0) <=> m > 2 * red[Len(red)][1])
(* once a temperature vanished nothing changes any more *)
EndedStays == [][ended => (red' = red /\ ended')]_vars

(* 0 confined, 1 deconfined, 2 on a segment (confined, and hit exactly), 3 refused *)
Verdict(m, t) == IF Refused(red, m) THEN 3
                 ELSE IF Deconfined(red, m, t) THEN 1
                 ELSE IF \E i \in 1 .. Len(red) - 1 : Segment(red, m, i) /\ Above(red[i], red[i + 1], m, t) = 0 THEN 2
                 ELSE 0
Emit == pb # <<>> => PrintT("@@" \o ToJson([pb |-> pb, red |-> Len(red),
           v |-> [m \in 1 .. 2 * MuMax + 4 |-> [t \in 1 .. 4 * TMax + 2 |-> Verdict(m - 2, t - 1)]]]))
=============================================================================
