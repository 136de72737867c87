------------------------------ MODULE MCFastDiv ------------------------------
(* Exhaustive over one word size: every divisor and every dividend.          *)
EXTENDS AlgFastDiv
B == 2 ^ WB
Init == \/ \E dd \in (B \div 2)..(B - 1) : \E aa \in 0..(dd * B - 1) : Begin("big", ZInt(dd), ZInt(aa))
        \/ \E dd \in 2..(B - 1) : \E aa \in 0..(B - 1) : Begin("small", ZInt(dd), ZInt(aa))
Spec == Init /\ [][Next]_vars
=============================================================================
