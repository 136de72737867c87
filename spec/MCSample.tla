------------------------------- MODULE MCSample --------------------------------
(* All ranges of up to MaxLen words, all tapes.                              *)
EXTENDS AlgSample, FiniteSets
Spec == Init /\ [][Next]_vars
(* Every number below the range has its tape. *)
Reaches == pc = "fill" =>
  \A s \in [1..(i - 1) -> Word] : Value([k \in 1..Len(range) |-> IF k < i THEN s[k] ELSE result[k]]) < Value(range)
===============================================================================
