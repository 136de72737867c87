------------------------------- MODULE AlgSample -------------------------------
(* Uniform numbers below a range of several words, as the library draws      *)
(* them: the top word at most the range's, then word by word as long as the  *)
(* words equal the range's, giving up when a word is greater or all are      *)
(* equal; the rest without looking.  The generator's words are the tape.     *)
EXTENDS Integers, Sequences
CONSTANTS Base, MaxLen
VARIABLES range, result, i, pc, tape
vars == <<range, result, i, pc, tape>>

RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE s[1] + Base * Value(Tail(s))
Word == 0..(Base - 1)
Ranges == {s \in UNION {[1..n -> Word] : n \in 1..MaxLen} : s[Len(s)] # 0 /\ Value(s) > 1}

Init == /\ range \in Ranges /\ result = [k \in 1..Len(range) |-> 0] /\ i = Len(range) /\ pc = "top" /\ tape = <<>>
Top == /\ pc = "top"
       /\ \E w \in 0..range[i] : result' = [result EXCEPT ![i] = w] /\ tape' = Append(tape, w)
       /\ pc' = "compare" /\ UNCHANGED <<range, i>>
Compare ==
  /\ pc = "compare"
  /\ IF result[i] # range[i] THEN pc' = "fill" /\ UNCHANGED <<range, result, i, tape>>
     ELSE IF i = 1 THEN pc' = "fail" /\ UNCHANGED <<range, result, i, tape>>
     ELSE \E w \in Word :
            /\ i' = i - 1 /\ result' = [result EXCEPT ![i - 1] = w] /\ tape' = Append(tape, w)
            /\ pc' = (IF w > range[i - 1] THEN "fail" ELSE "compare") /\ UNCHANGED range
(* The words below i. *)
Fill == /\ pc = "fill"
        /\ \E s \in [1..(i - 1) -> Word] :
             /\ result' = [k \in 1..Len(range) |-> IF k < i THEN s[k] ELSE result[k]]
             /\ tape' = tape \o [k \in 1..(i - 1) |-> s[i - k]]
        /\ pc' = "done" /\ UNCHANGED <<range, i>>
Next == Top \/ Compare \/ Fill

Below == pc = "done" => Value(result) < Value(range)
(* Each number has exactly one tape, which is its words from the top: so all *)
(* numbers are equally likely (the top word is drawn from as many for all).  *)
OneTape == pc = "done" => tape = [k \in 1..Len(range) |-> result[Len(range) + 1 - k]]
(* Nothing is given up that could still have become a number below the range.*)
OnlyTooLarge == pc = "fail" =>
  \A s \in [1..(i - 1) -> Word] : Value([k \in 1..Len(range) |-> IF k < i THEN s[k] ELSE result[k]]) >= Value(range)
===============================================================================
