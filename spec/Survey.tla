------------------------------- MODULE Survey -------------------------------
(* The survey programs (C19): nested loops over flavors, quark masses, chemical potentials and            *)
(* temperatures around one global register (the number of fermions), one open figure and one table.        *)
(*                                                                                                         *)
(* Program 1 has one quark mass and takes the number of flavors from the register of the library, which    *)
(* it sets between loops; program 2 has two masses and takes everything from a field configuration built   *)
(* for the purpose.  A curve is what its points were *evaluated with*; the figure that holds it says what  *)
(* it is *meant* to be.  Critical temperatures are any temperature of the grid (model checking) or those a  *)
(* run reported (conformance).                                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Inputs,   \* a sequence of [prog, flavors (sequence), masses, mus, temps, irtemps (numbers), tc (table or <<>>)]
         Free,     \* TRUE: critical temperatures are arbitrary
         Early     \* FALSE; TRUE: the register is set only before the second sort of figures (a defect, to show that the checks below notice)

VARIABLES inp, I,
          reg,      \* number of fermions in the register
          at,       \* what is being done: "mom" momentum figures, "ir" infrared figures, "tc" critical temperatures, "done"
          pos,      \* <<position in the flavors (0: none), mass, chemical potential, temperature>>
          fig,      \* the open figure: sequence of curves
          tcs,      \* critical temperatures of the open infrared figure
          out, lines
vars == <<inp, I, reg, at, pos, fig, tcs, out, lines>>

Nf(f) == IF f = 0 THEN 0 ELSE I.flavors[f]
Masses == IF pos[1] = 0 THEN 0 ELSE I.masses     \* nothing to loop over without quarks
Mus == IF pos[1] = 0 THEN 0 ELSE I.mus

(* what a point is evaluated with *)
With(m, u) == IF pos[1] = 0 THEN [nf |-> 0, q |-> 0, u |-> 0]
              ELSE [nf |-> IF I.prog = 1 THEN reg ELSE Nf(pos[1]), q |-> m, u |-> u]
Name(kind, m, u) == [kind |-> kind, nf |-> Nf(pos[1]), q |-> m, u |-> u]

Init == /\ LET all == Inputs IN \E k \in DOMAIN all : inp = k /\ I = all[k]
        /\ reg = 1 /\ at = "mom" /\ pos = <<0, 0, 0, 0>> /\ fig = <<>> /\ tcs = <<>> /\ out = <<>> /\ lines = <<>>

(* ---- figures against momentum: one curve per temperature, zero first, each with its own normalization *)
Curve == /\ at = "mom" /\ pos[4] <= I.temps
         /\ fig' = Append(fig, [with |-> With(pos[2], pos[3]), t |-> pos[4]])
         /\ pos' = [pos EXCEPT ![4] = @ + 1]
         /\ UNCHANGED <<inp, I, reg, at, tcs, out, lines>>
Save == /\ at = "mom" /\ pos[4] > I.temps
        /\ out' = Append(out, [name |-> Name("mom", pos[2], pos[3]), curves |-> fig])
        /\ fig' = <<>>
        /\ IF pos[3] < Mus THEN pos' = [pos EXCEPT ![3] = @ + 1, ![4] = 0] /\ UNCHANGED <<at, reg>>
           ELSE IF pos[2] < Masses THEN pos' = [pos EXCEPT ![2] = @ + 1, ![3] = 1, ![4] = 0] /\ UNCHANGED <<at, reg>>
           ELSE /\ pos' = IF pos[1] = 0 THEN <<0, 0, 0, 0>> ELSE <<pos[1], 1, 1, 0>>
                /\ at' = "ir"
                /\ reg' = IF Early /\ pos[1] > 0 /\ I.prog = 1 THEN Nf(pos[1]) ELSE reg
        /\ UNCHANGED <<inp, I, tcs, lines>>

(* ---- infrared figures: one curve per chemical potential, against temperature, and its critical temperature *)
Line(k) == Append(lines, [nf |-> Nf(pos[1]), q |-> pos[2], u |-> pos[3], tc |-> k])
IRCurve(k) == /\ at = "ir"
              /\ (IF Free THEN TRUE ELSE k = I.tc[Len(lines) + 1])
              /\ fig' = Append(fig, [with |-> With(pos[2], pos[3]), t |-> 0])
              /\ lines' = Line(k)
              /\ tcs' = Append(tcs, k)
              /\ IF pos[3] < Mus THEN pos' = [pos EXCEPT ![3] = @ + 1] /\ at' = at
                 ELSE pos' = pos /\ at' = "irsave"
              /\ UNCHANGED <<inp, I, reg, out>>
IRSave == /\ at = "irsave"
          /\ out' = Append(out, [name |-> Name("ir", pos[2], 0), curves |-> fig])
          /\ fig' = <<>>
          /\ at' = IF pos[1] = 0 THEN "next" ELSE "tc"
          /\ UNCHANGED <<inp, I, reg, pos, tcs, lines>>
(* ---- critical temperatures against chemical potential *)
TcFigure == /\ at = "tc"
            /\ out' = Append(out, [name |-> Name("tc", pos[2], 0), tcs |-> tcs])
            /\ IF pos[2] < Masses THEN pos' = [pos EXCEPT ![2] = @ + 1, ![3] = 1] /\ at' = "ir"
               ELSE at' = "next" /\ pos' = pos
            /\ tcs' = <<>>
            /\ UNCHANGED <<inp, I, reg, fig, lines>>
(* ---- the next number of flavors *)
NextFlavors == /\ at = "next"
               /\ tcs' = <<>>
               /\ IF pos[1] < Len(I.flavors)
                  THEN /\ at' = "mom" /\ pos' = <<pos[1] + 1, 1, 1, 0>>
                       /\ reg' = IF I.prog = 1 /\ ~Early THEN I.flavors[pos[1] + 1] ELSE reg
                  ELSE at' = "done" /\ UNCHANGED <<pos, reg>>
               /\ UNCHANGED <<inp, I, fig, out, lines>>

Next == Curve \/ Save \/ IRSave \/ TcFigure \/ NextFlavors \/ (\E k \in 1 .. IF at = "ir" THEN I.irtemps ELSE 0 : IRCurve(k))
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ what holds *)
Done == at = "done"
Image(s) == {s[i] : i \in DOMAIN s}
FlavorSet == Image(I.flavors)
Combos(kind, withmu) == {[kind |-> kind, nf |-> n, q |-> m, u |-> u] : n \in FlavorSet, m \in 1 .. I.masses, u \in IF withmu THEN 1 .. I.mus ELSE {0}}
(* every combination has exactly one figure of each sort *)
Prescribed == Done =>
    /\ {f.name : f \in Image(out)} = Combos("mom", TRUE) \cup Combos("ir", FALSE) \cup Combos("tc", FALSE)
                                     \cup {[kind |-> "mom", nf |-> 0, q |-> 0, u |-> 0], [kind |-> "ir", nf |-> 0, q |-> 0, u |-> 0]}
    /\ Len(out) = Cardinality({f.name : f \in Image(out)})
(* a curve was evaluated with what the name of its figure says *)
Meant(f) == \A i \in DOMAIN f.curves :
    /\ f.curves[i].with.nf = f.name.nf /\ f.curves[i].with.q = f.name.q
    /\ f.curves[i].with.u = IF f.name.kind = "mom" THEN f.name.u ELSE IF f.name.nf = 0 THEN 0 ELSE i
OwnSettings == \A f \in Image(out) : f.name.kind # "tc" => Meant(f)
(* one curve per temperature, zero first / one per chemical potential *)
CurvesInOrder == \A f \in Image(out) :
    /\ f.name.kind = "mom" => Len(f.curves) = I.temps + 1 /\ \A i \in DOMAIN f.curves : f.curves[i].t = i - 1
    /\ f.name.kind = "ir" => Len(f.curves) = IF f.name.nf = 0 THEN 1 ELSE I.mus
(* the table and the figures of critical temperatures say the same *)
TableAgrees == Done => /\ \A f \in Image(out) : f.name.kind = "tc" => \A i \in DOMAIN f.tcs :
                              [nf |-> f.name.nf, q |-> f.name.q, u |-> i, tc |-> f.tcs[i]] \in Image(lines)
                       /\ Len(lines) = 1 + Cardinality(FlavorSet) * I.masses * I.mus
                       /\ \A i, j \in DOMAIN lines : i # j => [lines[i] EXCEPT !.tc = 0] # [lines[j] EXCEPT !.tc = 0]
(* in program 1 the register follows the loop *)
RegisterFollows == (I.prog = 1 /\ pos[1] > 0) => reg = Nf(pos[1])
AppendOnly == [][SubSeq(out', 1, Len(out)) = out /\ SubSeq(lines', 1, Len(lines)) = lines]_vars

Emit == (Done /\ ~Free) => PrintT("@@" \o ToJson([inp |-> inp, out |-> out, lines |-> lines]))
=============================================================================
