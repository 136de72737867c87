------------------------------ MODULE MCDivHalf ------------------------------
EXTENDS AlgDivHalf
CONSTANTS Sizes
Init == \E s \in Sizes :
          \E r \in {ZInt(k) : k \in (2 ^ (WB * s[1] - 1))..(2 ^ (WB * s[1]) - 1)} :
          \E l \in {ZInt(k) : k \in 0..(2 ^ (WB * (s[1] + s[2])) - 1)} :
             Begin(s[1], s[2], r, l)
MCSizes == {<<2, 1>>, <<3, 1>>, <<3, 2>>}
Spec == Init /\ [][Next]_vars
=============================================================================
