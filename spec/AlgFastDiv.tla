----------------------------- MODULE AlgFastDiv ------------------------------
(* Division by a fixed word through its reciprocal, as in the library:       *)
(* "big": a double word by a divisor with its top bit set (Moeller, Granlund,*)
(* algorithm 4), "small": a word by any divisor (Granlund, Montgomery,       *)
(* algorithm 4.1).  Every intermediate value of the code is a variable.      *)
EXTENDS Slices
VARIABLES kind, d, a, m, shift, q0, q, r, pc, path
vars == <<kind, d, a, m, shift, q0, q, r, pc, path>>

W == WordsOf(1)
Lo(x) == ZMod(x, W)
Hi(x) == ZShrFloor(x, WB)

Begin(k, dd, aa) ==
  /\ kind = k /\ d = dd /\ a = aa /\ pc = "reciprocal" /\ path = <<>>
  /\ m = Z0 /\ shift = 0 /\ q0 = Z0 /\ q = Z0 /\ r = Z0

ReciprocalBig ==
  /\ pc = "reciprocal" /\ kind = "big"
  /\ m' = ZSub(ZDivT(ZSub(ZMul(W, W), Z1), d), W) /\ pc' = "approximate"
  /\ UNCHANGED <<kind, d, a, shift, q0, q, r, path>>
Approximate ==
  /\ pc = "approximate"
  /\ LET p == ZAdd(ZMul(m, Hi(a)), a)
     IN /\ q0' = Lo(p) /\ q' = ZMod(ZAdd(Hi(p), Z1), W)
        /\ r' = ZMod(ZSub(Lo(a), ZMul(q', d)), W)
        (* the product does not overflow two words *)
        /\ path' = IF ZLt(p, ZMul(W, W)) THEN path ELSE Append(path, "overflow")
  /\ pc' = "decrease" /\ UNCHANGED <<kind, d, a, m, shift>>
Decrease ==
  /\ pc = "decrease"
  /\ IF ZLt(q0, r)
     THEN q' = ZMod(ZSub(q, Z1), W) /\ r' = ZMod(ZAdd(r, d), W) /\ path' = Append(path, "dec")
     ELSE UNCHANGED <<q, r, path>>
  /\ pc' = "increase" /\ UNCHANGED <<kind, d, a, m, shift, q0>>
Increase ==
  /\ pc = "increase"
  /\ IF ZLe(d, r)
     THEN q' = ZMod(ZAdd(q, Z1), W) /\ r' = ZSub(r, d) /\ path' = Append(path, "inc")
     ELSE UNCHANGED <<q, r, path>>
  /\ pc' = "done" /\ UNCHANGED <<kind, d, a, m, shift, q0>>

CeilLog(x) == ZBitLen(ZSub(x, Z1))
ReciprocalSmall ==
  /\ pc = "reciprocal" /\ kind = "small"
  /\ LET n == CeilLog(d)
         x == ZDivT(ZShl(ZSub(ZSub(ZTwo(n), Z1), ZSub(d, Z1)), WB), d)
     IN /\ m' = ZMod(ZAdd(x, Z1), W) /\ shift' = n - 1
        /\ path' = IF ZLt(ZAdd(x, Z1), W) THEN path ELSE Append(path, "overflow")
  /\ pc' = "multiply" /\ UNCHANGED <<kind, d, a, q0, q, r>>
Multiply ==
  /\ pc = "multiply"
  /\ LET t == Hi(ZMul(m, a))
         s == ZAdd(t, ZShrFloor(ZSub(a, t), 1))
     IN /\ q' = ZShrFloor(s, shift) /\ r' = ZSub(a, ZMul(q', d)) /\ q0' = t
        /\ path' = IF ZLt(s, W) /\ ZLe(t, a) THEN path ELSE Append(path, "overflow")
  /\ pc' = "done" /\ UNCHANGED <<kind, d, a, m, shift>>
Next == ReciprocalBig \/ Approximate \/ Decrease \/ Increase \/ ReciprocalSmall \/ Multiply

Correct == pc = "done" => q = ZDivT(a, d) /\ r = ZRemT(a, d)
(* No intermediate value exceeds the words the code keeps it in. *)
NoOverflow == \A k \in 1..Len(path) : path[k] # "overflow"
(* What the comments of the code claim about r before the first correction.  *)
Real == ZSub(a, ZMul(q, d))
RemainderBounds ==
  pc = "decrease" /\ q # Z0 =>
     /\ ZLe(ZNeg(d), Real) /\ ZLe(ZSub(ZAdd(q0, Z1), W), Real)
     /\ (ZLt(Real, ZSub(W, d)) \/ ZLt(Real, q0))
=============================================================================
