----------------------------- MODULE AlgDivHalf ------------------------------
(* The step of the library's divide-and-conquer division: n+m words by a     *)
(* normalized divisor of n words, m < n.  The top m words of the divisor     *)
(* give a quotient (exact division of the upper 2m words, by induction),     *)
(* then the rest of the divisor is accounted for and the quotient lowered.   *)
EXTENDS Slices
VARIABLES n, m, rhs, whole, rem, q, over, hadcarry, short, fixes, pc
vars == <<n, m, rhs, whole, rem, q, over, hadcarry, short, fixes, pc>>

RTop == Slice(rhs, n - m, n)
RLow == Slice(rhs, 0, n - m)

Begin(nn, mm, r, l) ==
  /\ n = nn /\ m = mm /\ rhs = r /\ whole = l
  /\ rem = Z0 /\ q = Z0 /\ over = 0 /\ hadcarry = FALSE /\ short = 0 /\ fixes = 0 /\ pc = "top"
Divide ==
  /\ pc = "top" /\ pc' = "rest"
  /\ LET hi == Slice(whole, n - m, n + m)
         d == ZDivT(hi, RTop)
     IN /\ q' = Slice(d, 0, m) /\ over' = ZToInt(ZShrFloor(d, m * WB)) /\ hadcarry' = (over' = 1)
        /\ rem' = ZAdd(Slice(whole, 0, n - m), ZShl(ZRemT(hi, RTop), (n - m) * WB))
  /\ UNCHANGED <<n, m, rhs, whole, short, fixes>>
Rest ==
  /\ pc = "rest" /\ pc' = "fix"
  /\ LET x == AddAt(rem, 0, n, ZNeg(ZMul(q, RLow)))
         y == IF over = 1 THEN AddAt(x[1], m, n, ZNeg(RLow)) ELSE <<x[1], 0>>
     IN rem' = y[1] /\ short' = x[2] + y[2]
  /\ UNCHANGED <<n, m, rhs, whole, q, over, hadcarry, fixes>>
Fix ==
  /\ pc = "fix" /\ short < 0
  /\ LET x == AddAt(rem, 0, n, rhs)
         y == AddAt(q, 0, m, ZInt(0 - 1))
     IN rem' = x[1] /\ short' = short + x[2] /\ q' = y[1] /\ over' = over + y[2]
  /\ fixes' = fixes + 1
  /\ UNCHANGED <<n, m, rhs, whole, hadcarry, pc>>
Finish == pc = "fix" /\ short >= 0 /\ pc' = "done"
          /\ UNCHANGED <<n, m, rhs, whole, rem, q, over, hadcarry, short, fixes>>
Next == Divide \/ Rest \/ Fix \/ Finish

Correct == pc = "done" =>
  /\ short = 0 /\ over \in {0, 1}
  /\ ZAdd(q, ZShl(ZInt(over), m * WB)) = ZDivT(whole, rhs)
  /\ rem = ZRemT(whole, rhs)
(* Nothing is lost on the way.  Two corrections are enough when the quotient *)
(* of the top half fits, four when it has a carry.                           *)
Conserved == pc \in {"fix", "done"} =>
  ZAdd(ZMul(ZAdd(q, ZShl(ZInt(over), m * WB)), rhs), ZAdd(rem, ZShl(ZInt(short), n * WB))) = whole
Bounded == fixes <= 4 /\ (over = 0 /\ ~hadcarry => fixes <= 2) /\ short \in (0 - 4)..0 /\ over \in 0..1
=============================================================================
