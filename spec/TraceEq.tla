------------------------------ MODULE TraceEq -------------------------------
(* Two builds of the library (different word sizes or targets) ran the same  *)
(* program in lockstep.  The product machine steps only when both made the   *)
(* same call with the same outcome, results and register contents; it stops  *)
(* at the first event that tells the builds apart.  Event 1 describes the    *)
(* configurations and may differ.                                            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

A == ndJsonDeserialize(IOEnv.TRACE)
B == ndJsonDeserialize(IOEnv.TRACE2)
VARIABLE l
(* Recording stops at a size, which may come one program earlier or later.   *)
N == IF Len(A) < Len(B) THEN Len(A) ELSE Len(B)

Init == l = 1
Configured == l = 1 /\ l <= N /\ A[l].f = "cfg" /\ B[l].f = "cfg" /\ l' = l + 1
(* How many bytes a value occupied depends on the word size. *)
SameStep == /\ l > 1 /\ l <= N /\ l' = l + 1
            /\ IF A[l].f = "drop" THEN B[l].f = "drop" /\ A[l].a = B[l].a ELSE A[l] = B[l]
Next == Configured \/ SameStep
Spec == Init /\ [][Next]_l
Accepted == Assert(TLCGet("stats").diameter = N + 1, <<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
