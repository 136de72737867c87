-------------------------------- MODULE MCPack ---------------------------------
(* All inputs of up to MaxLen digits.                                        *)
EXTENDS AlgPack
Spec == Init /\ [][Next]_vars
===============================================================================
