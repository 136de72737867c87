------------------------------- MODULE MCScratch -------------------------------
(* The library's formulas and thresholds, for every length up to Longest.    *)
EXTENDS AlgScratch
CONSTANT Longest
Init ==
  /\ used = 0 /\ level = 0
  /\ \/ \E b \in 1..Longest : \E a \in {b, b + 1, b + b \div 3, b + b \div 2, 2 * b - 1, 2 * b, 3 * b + 1} \cup {b + Simple, b + Simple + 1, b + Karatsuba, b + Karatsuba + 1} :
          call = Call("mul", a, b) /\ total = NeedMul(b)
     \/ \E r \in 1..Longest : \E d \in {1, SimpleDiv, SimpleDiv + 1, 2 * SimpleDiv + 1, Simple + 1, Karatsuba + 1, r \div 3, r \div 2, r - 1, r, r + 1, 2 * r - 1, 2 * r} :
          d >= 0 /\ call = Call("div", r + d, r) /\ total = NeedDiv(r + d, r)
     \/ \E n \in 1..Longest : \E b \in {n, n - 1, n \div 2, 1} : b >= 1 /\ call = Call("ring", n, b) /\ total = NeedRing(n)
Spec == Init /\ [][Next]_vars
===============================================================================
