---------------------------- MODULE GenKaratsuba ----------------------------
(* Products by the carries Karatsuba's accumulations leave behind.           *)
EXTENDS AlgKaratsuba, Emit
CONSTANTS Lens, Kinds, Keep
Quarters(m) == LET h == (m + 1) \div 2 IN <<h \div 2, h - h \div 2, (m - h) \div 2, m - h - (m - h) \div 2>>
Init ==
  \E m \in Lens : \E x, y \in [1..4 -> Kinds] : Begin(m, Blocks(x, Quarters(m)), Blocks(y, Quarters(m)), Z0, 1)
Spec == Init /\ [][Next]_vars
Diffs == <<ZCmp(Lo(a), Hi(a)), ZCmp(Lo(b), Hi(b))>>
Export == pc = "carries" => Emit(<<n, Diffs, carry, carry0, carry1>>, Keep, ZText(a) \o " " \o ZText(b))
=============================================================================
