---- MODULE FindRootMC ----
EXTENDS FindRoot
GuessesR == {<<<<0,0>>, <<1,0>>>>, <<<<2,0>>, <<-1,0>>>>, <<<<1,0>>, <<3,0>>>>}
(* 0, 2/5 (below the tolerance 1/2), -2/5, 3/5 (above), 1, -1, 3 *)
ValuesR == {<<0,0>>, <<2,0>>, <<-2,0>>, <<3,0>>, <<5,0>>, <<-5,0>>, <<15,0>>}
GuessesC == {<<<<0,0>>, <<1,1>>>>, <<<<0,1>>, <<2,-1>>>>}
ValuesC == {<<0,0>>, <<1,2>>, <<2,2>>, <<0,-5>>, <<5,5>>, <<-5,0>>}
====
