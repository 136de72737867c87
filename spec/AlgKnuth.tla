------------------------------ MODULE AlgKnuth -------------------------------
(* Schoolbook division as in the library (Knuth's algorithm D): lhs of m     *)
(* words by a normalized rhs of n >= 2 words; the quotient words replace the *)
(* top words of lhs, the remainder stays in the low n words.                 *)
EXTENDS Slices
VARIABLES n, m, rhs, whole, lhs, len, q, quot, top, q0, borrow, pc, path
vars == <<n, m, rhs, whole, lhs, len, q, quot, top, q0, borrow, pc, path>>

Word(x, i) == Slice(x, i, i + 1)
R0 == Word(rhs, n - 1)
R1 == Word(rhs, n - 2)
W == WordsOf(1)
Double(hi, lo) == ZAdd(ZShl(hi, WB), lo)

Begin(nn, mm, r, l) ==
  /\ n = nn /\ m = mm /\ rhs = r /\ lhs = l /\ whole = l
  /\ len = mm /\ q = Z0 /\ quot = Z0 /\ top = 0 /\ q0 = Z0 /\ borrow = Z0 /\ pc = "carry" /\ path = <<>>

(* The quotient's carry: at most one because rhs is normalized. *)
QuotientCarry ==
  /\ pc = "carry"
  /\ LET hi == Slice(lhs, m - n, m)
     IN IF ZLe(rhs, hi) THEN top' = 1 /\ lhs' = Put(lhs, m - n, m, ZSub(hi, rhs))
        ELSE top' = 0 /\ lhs' = lhs
  /\ pc' = IF len > n THEN "estimate" ELSE "done"
  /\ UNCHANGED <<n, m, rhs, whole, len, q, quot, q0, borrow, path>>
(* Estimate a quotient word from two words of lhs and one of rhs. *)
Estimate ==
  /\ pc = "estimate"
  /\ LET l0 == Word(lhs, len - 1)
         l1 == Word(lhs, len - 2)
     IN IF ZLt(l0, R0)
        THEN /\ q' = ZDivT(Double(l0, l1), R0) /\ q0' = ZRemT(Double(l0, l1), R0)
             /\ pc' = "refine" /\ path' = path
        ELSE /\ q' = ZSub(W, Z1) /\ q0' = Z0 /\ pc' = "subtract" /\ path' = Append(path, "max")
  /\ UNCHANGED <<n, m, rhs, whole, lhs, len, quot, top, borrow>>
(* Too large as the third word shows: decrease, at most twice.  q0 is the    *)
(* remainder of the estimate.                                                *)
TooLarge == ZLt(Double(q0, Word(lhs, len - 3)), ZMul(q, R1))
Refine ==
  /\ pc = "refine"
  /\ IF TooLarge
     THEN /\ q' = ZSub(q, Z1)
          /\ LET r == ZAdd(q0, R0)
             IN IF ZLt(r, W) THEN q0' = r /\ pc' = "refine" ELSE q0' = r /\ pc' = "subtract"
          /\ path' = Append(path, "dec")
     ELSE pc' = "subtract" /\ UNCHANGED <<q, q0, path>>
  /\ UNCHANGED <<n, m, rhs, whole, lhs, len, quot, top, borrow>>
Subtract ==
  /\ pc = "subtract" /\ pc' = "check"
  /\ LET d == ZSub(Slice(lhs, len - 1 - n, len - 1), ZMul(q, rhs))
     IN /\ lhs' = Put(lhs, len - 1 - n, len - 1, ZMod(d, WordsOf(n)))
        /\ borrow' = ZNeg(ZShrFloor(d, n * WB))
  /\ UNCHANGED <<n, m, rhs, whole, len, q, quot, top, q0, path>>
(* Still too large by one: add rhs back. *)
AddBack ==
  /\ pc = "check" /\ ZLt(Word(lhs, len - 1), borrow)
  /\ q' = ZSub(q, Z1) /\ borrow' = ZSub(borrow, Z1) /\ path' = Append(path, "back")
  /\ LET s == AddAt(lhs, len - 1 - n, len - 1, rhs) IN lhs' = s[1] /\ s[2] = 1
  /\ UNCHANGED <<n, m, rhs, whole, len, quot, top, q0, pc>>
Store ==
  /\ pc = "check" /\ borrow = Word(lhs, len - 1)
  /\ lhs' = Put(lhs, len - 1, len, q) /\ len' = len - 1
  /\ path' = Append(path, "word")
  /\ pc' = IF len - 1 > n THEN "estimate" ELSE "done"
  /\ UNCHANGED <<n, m, rhs, whole, q, quot, top, q0, borrow>>
Next == QuotientCarry \/ Estimate \/ Refine \/ Subtract \/ AddBack \/ Store

(* At every loop head: whole = quotient so far * rhs + what is left. *)
Left == Slice(lhs, 0, len)
Words2 == Slice(lhs, len, m)
QuotientSoFar == ZShl(ZAdd(Words2, ZShl(ZInt(top), (m - len) * WB)), (len - n) * WB)
LoopInvariant == pc \in {"estimate", "done"} =>
  /\ ZAdd(ZMul(QuotientSoFar, rhs), Left) = whole
  /\ ZLt(Slice(lhs, len - n, len), rhs)
Correct == pc = "done" =>
  /\ ZAdd(Slice(lhs, n, m), ZShl(ZInt(top), (m - n) * WB)) = ZDivT(whole, rhs)
  /\ Slice(lhs, 0, n) = ZRemT(whole, rhs)
(* The estimate is never too small, never too large by more than two before  *)
(* and more than one after the refinement.                                   *)
Real == ZDivT(Slice(lhs, len - 1 - n, len), rhs)
EstimateBounds ==
  /\ pc = "refine" => ZLe(Real, q) /\ ZLe(q, ZAdd(Real, ZInt(2)))
  /\ pc = "subtract" => ZLe(Real, q) /\ ZLe(q, ZAdd(Real, Z1))
(* The code's debug assertion: after at most one correction nothing is left. *)
Settled == pc = "check" => (borrow = Word(lhs, len - 1) \/ borrow = ZAdd(Word(lhs, len - 1), Z1))
=============================================================================
