------------------------------- MODULE GenRepr -------------------------------
(* Every operation on every reachable length, capacity and shape.            *)
EXTENDS AlgRepr, Emit
CONSTANT Keep
GenGrow == {0, 1, 3}
View2 == <<N0, cap, Shape>>
Spec == Init /\ [][Next]_vars
Export == Emit(<<N0, cap, Shape, op', Len0(z'), cap'>>, Keep, prog' \o " ~ drop||v0")
=============================================================================
