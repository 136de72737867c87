--------------------------------- MODULE GenAdd --------------------------------
(* Sums and differences that go each way through the words: one pair for     *)
(* every course of carries, equal words and lengths.  The digits 0, 1 and 3  *)
(* stand for words of zeros, one, and ones.                                  *)
EXTENDS AlgAdd, Emit
Spec == Init /\ [][Next]_vars
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o Text(Tail(q))
Export == pc \in {"done", "failed"} => Emit(path, 5, op \o " " \o Text(x) \o " " \o Text(y))
===============================================================================
