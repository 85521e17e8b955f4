----------------------------- MODULE PipelineMC -----------------------------
(* Small inputs for exhaustive model checking of Pipeline.tla: every shape of critical line. *)
EXTENDS Pipeline
G(a, b, c) == <<a, b, c>>
InputsMC == << [temps |-> [few |-> G(0, 4, 2), more |-> G(0, 4, 4), many |-> G(0, 2, 1)],
                mus   |-> [few |-> G(1, 7, 2), more |-> G(0, 4, 4), many |-> G(1, 5, 1)]],
               [temps |-> [few |-> G(0, 3, 1), more |-> G(0, 3, 2), many |-> G(0, 4, 2)],
                mus   |-> [few |-> G(0, 9, 3), more |-> G(0, 3, 2), many |-> G(0, 8, 2)]] >>
=============================================================================
