---------------------------- MODULE AlgKaratsuba ----------------------------
(* One level of Karatsuba multiplication as the library does it, with its    *)
(* three overlapping accumulations and delayed carries:                      *)
(*    c[0..2n] += sg * a * b,  a and b of n words, result and signed carry.  *)
(* The three inner products are exact here: they are the same statement for  *)
(* shorter operands, or the simple algorithm (AlgSimple).                    *)
EXTENDS Slices
VARIABLES n, a, b, c, sg, start, carry, carry0, carry1, pc
vars == <<n, a, b, c, sg, start, carry, carry0, carry1, pc>>

Mid == (n + 1) \div 2
Lo(x) == Slice(x, 0, Mid)
Hi(x) == Slice(x, Mid, n)

Begin(nn, aa, bb, cc, s) ==
  /\ n = nn /\ a = aa /\ b = bb /\ c = cc /\ start = cc /\ sg = s
  /\ carry = 0 /\ carry0 = 0 /\ carry1 = 0 /\ pc = "lo"

LowProduct ==
  /\ pc = "lo" /\ pc' = "hi"
  /\ LET p == Signed(sg, ZMul(Lo(a), Lo(b)))
         x == AddAt(c, 0, 2 * Mid, p)
         y == AddAt(x[1], Mid, 3 * Mid, p)
     IN c' = y[1] /\ carry0' = carry0 + x[2] /\ carry1' = carry1 + y[2]
  /\ UNCHANGED <<n, a, b, sg, start, carry>>
HighProduct ==
  /\ pc = "hi" /\ pc' = "diff"
  /\ LET p == Signed(sg, ZMul(Hi(a), Hi(b)))
         x == AddAt(c, 2 * Mid, 2 * n, p)
         y == AddAt(x[1], Mid, 3 * Mid, p)
     IN c' = y[1] /\ carry' = carry + x[2] /\ carry1' = carry1 + y[2]
  /\ UNCHANGED <<n, a, b, sg, start, carry0>>
DifferenceProduct ==
  /\ pc = "diff" /\ pc' = "carries"
  /\ LET da == ZSub(Lo(a), Hi(a))
         db == ZSub(Lo(b), Hi(b))
         x == AddAt(c, Mid, 3 * Mid, Signed(0 - sg, ZMul(da, db)))
     IN c' = x[1] /\ carry1' = carry1 + x[2]
  /\ UNCHANGED <<n, a, b, sg, start, carry, carry0>>
Carries ==
  /\ pc = "carries" /\ pc' = "done"
  /\ LET x == AddAt(c, 2 * Mid, 3 * Mid, ZInt(carry0))
         k1 == carry1 + x[2]
         y == AddAt(x[1], 3 * Mid, 2 * n, ZInt(k1))
     IN c' = y[1] /\ carry1' = k1 /\ carry' = carry + y[2]
  /\ UNCHANGED <<n, a, b, sg, start, carry0>>
Next == LowProduct \/ HighProduct \/ DifferenceProduct \/ Carries

(* The whole: nothing is lost, and the final carry is small. *)
Whole(x, k) == ZAdd(x, ZShl(ZInt(k), 2 * n * WB))
Correct == pc = "done" =>
  /\ Whole(c, carry) = ZAdd(start, Signed(sg, ZMul(a, b)))
  /\ carry \in {0 - 1, 0, 1}
(* No intermediate carry leaves a signed word; the middle window fits. *)
Bounded ==
  /\ carry \in (0 - 2)..2 /\ carry0 \in (0 - 1)..1 /\ carry1 \in (0 - 3)..3
  /\ ZLe(Z0, c) /\ ZLt(c, WordsOf(2 * n)) /\ 3 * Mid <= 2 * n
=============================================================================
