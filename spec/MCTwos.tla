-------------------------------- MODULE MCTwos ---------------------------------
(* Every pair of numbers up to three words and some, every sign.             *)
EXTENDS AlgTwos
Spec == Init /\ [][Next]_vars
===============================================================================
