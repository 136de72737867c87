------------------------------- MODULE MCRepr --------------------------------
EXTENDS AlgRepr
Spec == Init /\ [][Next]_vars
ASSUME NoReallocation
MCGrow == 0..4
View2 == <<N0, cap, Shape>>
=============================================================================
