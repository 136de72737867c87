------------------------------- MODULE MCKnuth -------------------------------
(* Exhaustive: every normalized divisor of each length, every dividend.      *)
EXTENDS AlgKnuth
CONSTANTS Sizes
Init == \E s \in Sizes :
          \E r \in {ZInt(k) : k \in (2 ^ (WB * s[1] - 1))..(2 ^ (WB * s[1]) - 1)} :
          \E l \in {ZInt(k) : k \in 0..(2 ^ (WB * s[2]) - 1)} :
             Begin(s[1], s[2], r, l)
MCSizes == {<<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 4>>}
Spec == Init /\ [][Next]_vars
=============================================================================
