------------------------------ MODULE AlgToom3 ------------------------------
(* One level of the library's Toom-Cook-3 multiplication:                    *)
(*    c[0..2n] += sg * a * b,  a and b of n >= 16 words.                     *)
(* Every evaluation, the overlapping windows of c and the four delayed       *)
(* carries are as in the code; inner products are exact.                     *)
EXTENDS Slices
VARIABLES n, a, b, c, sg, start, t1, t2, carry, k, pc
vars == <<n, a, b, c, sg, start, t1, t2, carry, k, pc>>

N3 == (n + 2) \div 3
Short == n - 2 * N3
Part(x, i) == Slice(x, i * N3, IF i = 2 THEN n ELSE (i + 1) * N3)
V0 == ZMul(Part(a, 0), Part(b, 0))
VInf == ZMul(Part(a, 2), Part(b, 2))
Eval1(x) == ZAdd(Part(x, 0), ZAdd(Part(x, 1), Part(x, 2)))
EvalNeg1(x) == ZAdd(ZSub(Part(x, 0), Part(x, 1)), Part(x, 2))
Eval2(x) == ZAdd(Part(x, 0), ZAdd(ZShl(Part(x, 1), 1), ZShl(Part(x, 2), 2)))
T == WordsOf(2 * N3 + 2)

Begin(nn, aa, bb, cc, s) ==
  /\ n = nn /\ a = aa /\ b = bb /\ c = cc /\ start = cc /\ sg = s
  /\ t1 = Z0 /\ t2 = Z0 /\ carry = 0 /\ k = <<0, 0, 0, 0>> /\ pc = "0"

At0 ==
  /\ pc = "0" /\ pc' = "2"
  /\ LET x == AddAt(c, 0, 2 * N3, Signed(sg, V0))
         y == AddAt(x[1], 2 * N3, 4 * N3 + 2, Signed(0 - sg, V0))
     IN c' = y[1] /\ k' = <<k[1] + x[2], k[2], k[3] + y[2], k[4]>>
  /\ t1' = ZMul(V0, ZInt(3))
  /\ UNCHANGED <<n, a, b, sg, start, t2, carry>>
At2 ==
  /\ pc = "2" /\ pc' = "inf" /\ t1' = ZAdd(t1, ZMul(Eval2(a), Eval2(b)))
  /\ UNCHANGED <<n, a, b, sg, start, c, t2, carry, k>>
AtInf ==
  /\ pc = "inf" /\ pc' = "1"
  /\ LET x == AddAt(c, 2 * N3, 4 * N3 + 2, Signed(0 - sg, VInf))
         y == AddAt(x[1], 4 * N3, 2 * n, Signed(sg, VInf))
     IN c' = y[1] /\ k' = [k EXCEPT ![3] = @ + x[2]] /\ carry' = carry + y[2]
  /\ t1' = ZSub(t1, ZMul(VInf, ZInt(12)))
  /\ UNCHANGED <<n, a, b, sg, start, t2>>
At1 ==
  /\ pc = "1" /\ pc' = "-1"
  /\ LET v == ZMul(Eval1(a), Eval1(b))
         x == AddAt(c, N3, 3 * N3 + 2, Signed(sg, v))
     IN t2' = v /\ c' = x[1] /\ k' = [k EXCEPT ![2] = @ + x[2]]
  /\ UNCHANGED <<n, a, b, sg, start, t1, carry>>
AtNeg1 ==
  /\ pc = "-1" /\ pc' = "solve"
  /\ LET v == ZMul(EvalNeg1(a), EvalNeg1(b))
     IN t2' = ZAdd(t2, v) /\ t1' = ZAdd(t1, ZShl(v, 1))
  /\ UNCHANGED <<n, a, b, sg, start, c, carry, k>>
Solve ==
  /\ pc = "solve" /\ pc' = "combine"
  /\ t1' = ZDivT(t1, ZInt(6)) /\ t2' = ZDivT(t2, ZInt(2))
  /\ UNCHANGED <<n, a, b, sg, start, c, carry, k>>
Combine ==
  /\ pc = "combine" /\ pc' = "carries"
  /\ LET p == AddAt(c, N3, 3 * N3 + 2, Signed(0 - sg, t1))
         q == AddAt(p[1], 3 * N3, 5 * N3 + 2, Signed(sg, t1))
         r == AddAt(q[1], 2 * N3, 4 * N3 + 2, Signed(sg, t2))
         s == AddAt(r[1], 3 * N3, 5 * N3 + 2, Signed(0 - sg, t2))
     IN c' = s[1] /\ k' = <<k[1], k[2] + p[2], k[3] + r[2], k[4] + q[2] + s[2]>>
  /\ UNCHANGED <<n, a, b, sg, start, t1, t2, carry>>
(* The carries c_0 .. c_3 ripple from window to window.  moved records what  *)
(* each ripple carried out, to tell executions apart.                        *)
Ripples ==
  LET x == AddAt(c, 2 * N3, 3 * N3 + 2, ZInt(k[1]))
      k2 == k[2] + x[2]
      y == AddAt(x[1], 3 * N3 + 2, 4 * N3 + 2, ZInt(k2))
      k3 == k[3] + y[2]
      z == AddAt(y[1], 4 * N3 + 2, 5 * N3 + 2, ZInt(k3))
      k4 == k[4] + z[2]
      w == AddAt(z[1], 5 * N3 + 2, 2 * n, ZInt(k4))
  IN [c |-> w[1], k |-> <<k[1], k2, k3, k4>>, out |-> <<x[2], y[2], z[2], w[2]>>, carry |-> carry + w[2]]
Carries ==
  /\ pc = "carries" /\ pc' = "done"
  /\ c' = Ripples.c /\ k' = Ripples.k /\ carry' = Ripples.carry
  /\ UNCHANGED <<n, a, b, sg, start, t1, t2>>
Next == At0 \/ At2 \/ AtInf \/ At1 \/ AtNeg1 \/ Solve \/ Combine \/ Carries

Whole(x, m) == ZAdd(x, ZShl(ZInt(m), 2 * n * WB))
Correct == pc = "done" =>
  /\ Whole(c, carry) = ZAdd(start, Signed(sg, ZMul(a, b)))
  /\ carry \in {0 - 1, 0, 1}
(* What the code asserts or relies on: t1, t2 stay in their buffers, are     *)
(* never negative, and divide exactly; carries are tiny.                     *)
Bounded ==
  /\ ZLe(Z0, t1) /\ ZLt(t1, T) /\ ZLe(Z0, t2) /\ ZLt(t2, T)
  /\ pc = "solve" => ZRemT(t1, ZInt(6)) = Z0 /\ ZRemT(t2, ZInt(2)) = Z0
  /\ carry \in (0 - 2)..2 /\ \A i \in 1..4 : k[i] \in (0 - 4)..4
  /\ ZLe(Z0, c) /\ ZLt(c, WordsOf(2 * n)) /\ 5 * N3 + 2 <= 2 * n /\ 2 * Short <= 2 * N3
=============================================================================
