-------------------------------- MODULE MCText --------------------------------
(* Every text of up to MaxLen digits in small radices, chunks of two groups. *)
EXTENDS AlgText
CONSTANTS MaxLen, Radices, Limit
RECURSIVE Digits(_, _, _)
Digits(n, r, len) == IF len = 0 THEN <<>> ELSE Append(Digits(n \div r, r, len - 1), n % r)
Init == \E r \in Radices : \E len \in {k \in 1..MaxLen : r ^ k < Limit} : \E n \in 0..(r ^ len - 1) :
          Begin(r, Digits(n, r, len))
Spec == Init /\ [][Next]_vars
===============================================================================
