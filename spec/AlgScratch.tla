------------------------------- MODULE AlgScratch ------------------------------
(* Temporary memory of multiplication and division.  It is allocated once,   *)
(* from a formula on the lengths; every level of the recursion carves its    *)
(* arrays from the rest and panics when there is none.  A state is one call  *)
(* of the recursion: its lengths and the words in use above it.              *)
EXTENDS Integers, Sequences
CONSTANTS Simple,     \* longest simple multiplication
          Karatsuba,  \* longest Karatsuba multiplication
          SimpleDiv   \* longest simple quotient or divisor
VARIABLES call, used, total, level
vars == <<call, used, total, level>>

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)   \* rounded up

(* The formulas. *)
NeedMul(n) == IF n <= Simple THEN 0 ELSE IF n <= Karatsuba THEN 2 * n + 2 * Log2(n) ELSE 4 * n + 13 * Log2(n)
NeedDiv(l, r) == IF l - r <= SimpleDiv \/ r <= SimpleDiv THEN 0 ELSE NeedMul(Min(r \div 2, l - r))
NeedRing(n) == 2 * n + Max(NeedMul(n), NeedDiv(2 * n, n))

Call(f, a, b) == <<f, a, b>>
Enter(f, a, b, more) == /\ call' = Call(f, a, b) /\ used' = used + more /\ level' = level + 1 /\ UNCHANGED total
Is(f) == call[1] = f
A == call[2]
B == call[3]

(* Factors of lengths A >= B, in pieces of B and what is left. *)
Pieces ==
  /\ Is("mul") /\ B > Simple
  /\ \/ A >= B /\ Enter("same", B, B, 0)
     \/ A % B > 0 /\ Enter("mul", B, A % B, 0)
KaratsubaStep ==
  /\ Is("same") /\ A > Simple /\ A <= Karatsuba
  /\ LET mid == (A + 1) \div 2
     IN \/ Enter("same", mid, mid, 2 * mid)
        \/ Enter("same", A - mid, A - mid, 2 * (A - mid))
        \/ Enter("same", mid, mid, mid + mid)
Toom3Step ==
  /\ Is("same") /\ A > Karatsuba
  /\ LET n3 == (A + 2) \div 3
         rest == A - 2 * n3
         t == 2 * n3 + 2
         evals == 2 * (n3 + 1)
     IN \/ Enter("same", n3, n3, t)                          \* V(0)
        \/ Enter("same", n3 + 1, n3 + 1, t + evals)          \* V(2)
        \/ Enter("same", rest, rest, t + evals + t)          \* V(inf), in c_eval
        \/ Enter("same", n3 + 1, n3 + 1, t + evals + t + evals)  \* V(1), beside a02 and b02
        \/ Enter("same", n3 + 1, n3 + 1, t + evals + t + t)  \* V(-1), in c_eval
(* Dividend A, divisor B. *)
DivideBlocks ==
  /\ Is("div") /\ B > SimpleDiv /\ A - B > SimpleDiv
  /\ \/ A >= 2 * B /\ Enter("dsame", B, B, 0)
     \/ A % B > 0 /\ Enter("dsmall", A % B, B, 0)  \* quotient shorter than the divisor
DivideSame ==
  /\ Is("dsame")
  /\ \/ Enter("dsmall", A - A \div 2, A, 0)
     \/ Enter("dsmall", A \div 2, A, 0)
DivideSmall ==
  /\ Is("dsmall") /\ A > SimpleDiv
  /\ \/ Enter("dsame", A, A, 0)
     \/ Enter("mul", Max(A, B - A), Min(A, B - A), 0)
(* One multiplication in a ring: product, then reduction, in the same rest.  *)
RingStep ==
  /\ Is("ring")
  /\ \/ Enter("mul", A, B, 2 * A)
     \/ Enter("div", 2 * A, A, 2 * A)
Next == Pieces \/ KaratsubaStep \/ Toom3Step \/ DivideBlocks \/ DivideSame \/ DivideSmall \/ RingStep

(* What a call takes for itself is used by the calls below it; leaves take   *)
(* nothing; so it is enough that every call finds its words there.           *)
Own == IF Is("same") /\ A > Simple /\ A <= Karatsuba THEN 2 * ((A + 1) \div 2)
       ELSE IF Is("same") /\ A > Karatsuba
       THEN LET n3 == (A + 2) \div 3 IN 8 * (n3 + 1)
       ELSE IF Is("ring") THEN 2 * A ELSE 0
Enough == used + Own <= total
(* The lengths each method was made for. *)
Lengths ==
  /\ Is("mul") => A >= B /\ B >= 1
  /\ Is("same") => A >= 1 /\ (A > Simple => (A <= Karatsuba => A >= 3) /\ (A > Karatsuba => A >= 16))
  /\ Is("dsmall") => A < B /\ A >= 1
  /\ Is("dsame") => A > SimpleDiv
(* The recursion is shallow. *)
Shallow == level <= 6 + 4 * Log2(Max(A, B) + total + 2)
===============================================================================
