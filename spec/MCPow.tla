-------------------------------- MODULE MCPow ---------------------------------
(* Every exponent of up to 11 bits with every window length.                 *)
EXTENDS AlgPow
Init == \E x \in 2..2047 : \E w \in 1..(WB - 1) : Begin(ZInt(x), w)
Spec == Init /\ [][Next]_vars
===============================================================================
