--------------------------------- MODULE MCAdd ---------------------------------
(* Every pair of numbers of up to MaxLen words.                              *)
EXTENDS AlgAdd
Spec == Init /\ [][Next]_vars
View == <<op, x, y, w, i, c, n, sign, pc>>
===============================================================================
