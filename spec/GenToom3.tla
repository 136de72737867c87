------------------------------ MODULE GenToom3 ------------------------------
(* Products by the carries Toom-3's accumulations leave behind.              *)
EXTENDS AlgToom3, Emit
CONSTANTS Lens, Kinds, Keep
Parts(m) == <<(m + 2) \div 3, (m + 2) \div 3, m - 2 * ((m + 2) \div 3)>>
Init == \E m \in Lens : \E x, y \in [1..3 -> Kinds] : Begin(m, Blocks(x, Parts(m)), Blocks(y, Parts(m)), Z0, 1)
Spec == Init /\ [][Next]_vars
Path == <<n, k, Ripples.out, Ripples.carry, ZCmp(EvalNeg1(a), Z0), ZCmp(EvalNeg1(b), Z0)>>
Export == pc = "carries" => Emit(Path, Keep, ZText(a) \o " " \o ZText(b))
=============================================================================
