-------------------------------- MODULE MCBits ---------------------------------
(* Every number of up to four words, every place up to two words beyond.     *)
EXTENDS AlgBits
Spec == Init /\ [][Next]_vars
===============================================================================
