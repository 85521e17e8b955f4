------------------------------ MODULE SurveyMC ------------------------------
(* Small grids, every critical line. *)
EXTENDS Survey
In(p, f, m, u, t, k) == [prog |-> p, flavors |-> f, masses |-> m, mus |-> u, temps |-> t, irtemps |-> k, tc |-> <<>>]
InputsMC == << In(1, <<1, 2>>, 2, 2, 1, 2), In(2, <<1, 4>>, 2, 2, 1, 2), In(1, <<2>>, 2, 3, 2, 3), In(2, <<2>>, 1, 4, 2, 3) >>
InputsMCT == << In(1, <<1, 2>>, 3, 2, 2, 2), In(2, <<1, 4>>, 2, 3, 2, 2), In(1, <<1, 2, 4>>, 1, 3, 1, 2), In(1, <<2, 4>>, 2, 2, 2, 3), In(2, <<1, 2, 4>>, 1, 3, 2, 2) >>
=============================================================================
