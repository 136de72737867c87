-------------------------------- MODULE MCGcd ---------------------------------
(* Every pair of numbers up to Top, each through its whole computation.      *)
EXTENDS AlgGcd
CONSTANT Top
Init == \E p, q \in 0..Top : p + q > 0 /\ Begin(ZInt(p), ZInt(q))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(pc = "done")
===============================================================================
