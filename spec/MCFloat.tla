-------------------------------- MODULE MCFloat --------------------------------
(* Every number up to beyond the largest float of a small format; the packed *)
(* pattern is also that of the specification (Values.FloatBits).             *)
EXTENDS AlgFloat, Values
Spec == Init /\ [][Next]_vars
AsSpecified == pc = "done" => FloatBits(ZInt(n), Prec, Bias) = ZInt(packed)
===============================================================================
