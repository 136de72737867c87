------------------------------ MODULE MCToom3 -------------------------------
EXTENDS AlgToom3
CONSTANTS Lens, Kinds, Starts, Signs
Parts(m) == <<(m + 2) \div 3, (m + 2) \div 3, m - 2 * ((m + 2) \div 3)>>
Init ==
  \E m \in Lens : \E x, y \in [1..3 -> Kinds], s \in Starts, g \in Signs :
     Begin(m, Blocks(x, Parts(m)), Blocks(y, Parts(m)), Block(s, 2 * m), g)
Both == {1, 0 - 1}
Spec == Init /\ [][Next]_vars
=============================================================================
