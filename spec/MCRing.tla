-------------------------------- MODULE MCRing --------------------------------
(* Two-bit words: every modulus of up to three words, every pair of numbers  *)
(* of the same range, signs included.                                        *)
EXTENDS AlgRing
Top == 2 ^ (3 * WB)
Init ==
  \E n \in 1..(Top - 1) : \E p \in (1 - Top)..(Top - 1) : \E q \in {0, 1, 11, 40, n - 1, n \div 2, 2 * n - 1} :
  \E s \in {1, -1} : \E f \in {"add", "sub", "neg", "mul"} :
    /\ f = "neg" => q = 0 /\ s = 1
    /\ Begin(ZInt(n), ZInt(p), ZInt(s * q), f)
Spec == Init /\ [][Next]_vars
===============================================================================
