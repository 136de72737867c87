---------------------------- MODULE MCKaratsuba -----------------------------
EXTENDS AlgKaratsuba
CONSTANTS Lens, Kinds, Starts, Signs
Halves(m) == <<(m + 1) \div 2, m \div 2>>
Init ==
  \E m \in Lens : \E x, y \in [1..2 -> Kinds], s \in Starts, g \in Signs :
     Begin(m, Blocks(x, Halves(m)), Blocks(y, Halves(m)), Block(s, 2 * m), g)
Both == {1, 0 - 1}
Spec == Init /\ [][Next]_vars
=============================================================================
