------------------------------- MODULE Digits -------------------------------
(* Natural numbers as little-endian digit sequences in base B, without       *)
(* leading (i.e. high) zeros: the number 0 is the empty sequence.  This is   *)
(* the definition of the integers the specification talks about.             *)
(* Schoolbook definitions, meant to be obviously right rather than fast.     *)
EXTENDS Naturals, Sequences
CONSTANT B
ASSUME B \in Nat /\ B >= 2

RECURSIVE DNorm(_)
DNorm(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE DNorm(SubSeq(s, 1, Len(s) - 1))

IsDigits(s) == /\ \A k \in 1..Len(s) : s[k] \in 0..(B - 1)
               /\ s = <<>> \/ s[Len(s)] # 0

RECURSIVE DFromNat(_)
DFromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o DFromNat(n \div B)

RECURSIVE DToNat(_)
DToNat(s) == IF s = <<>> THEN 0 ELSE s[1] + B * DToNat(Tail(s))

DigitAt(s, k) == IF k <= Len(s) THEN s[k] ELSE 0

(* Comparison: -1, 0, 1 written as 0, 1, 2 to stay in Nat. *)
RECURSIVE DCmpFrom(_, _, _)
DCmpFrom(a, b, k) ==
  IF k = 0 THEN 1
  ELSE IF a[k] < b[k] THEN 0 ELSE IF a[k] > b[k] THEN 2 ELSE DCmpFrom(a, b, k - 1)
DCmp(a, b) == IF Len(a) < Len(b) THEN 0 ELSE IF Len(a) > Len(b) THEN 2 ELSE DCmpFrom(a, b, Len(a))
DLess(a, b) == DCmp(a, b) = 0

RECURSIVE DAddFrom(_, _, _, _)
DAddFrom(a, b, k, c) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == DigitAt(a, k) + DigitAt(b, k) + c
       IN <<t % B>> \o DAddFrom(a, b, k + 1, t \div B)
DAdd(a, b) == DAddFrom(a, b, 1, 0)

(* a - b for a >= b. *)
RECURSIVE DSubFrom(_, _, _, _)
DSubFrom(a, b, k, c) ==
  IF k > Len(a) THEN <<>>
  ELSE LET need == DigitAt(b, k) + c
       IN IF a[k] >= need THEN <<a[k] - need>> \o DSubFrom(a, b, k + 1, 0)
          ELSE <<a[k] + B - need>> \o DSubFrom(a, b, k + 1, 1)
DSub(a, b) == DNorm(DSubFrom(a, b, 1, 0))

RECURSIVE DMulDigitFrom(_, _, _, _)
DMulDigitFrom(a, d, k, c) ==
  IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[k] * d + c IN <<t % B>> \o DMulDigitFrom(a, d, k + 1, t \div B)
DMulDigit(a, d) == IF d = 0 THEN <<>> ELSE DMulDigitFrom(a, d, 1, 0)

Shifted(a, n) == IF a = <<>> THEN <<>> ELSE [k \in 1..n |-> 0] \o a

RECURSIVE DMulFrom(_, _, _)
DMulFrom(a, b, k) ==
  IF k > Len(b) THEN <<>> ELSE DAdd(DMulDigit(a, b[k]), Shifted(DMulFrom(a, b, k + 1), 1))
DMul(a, b) == DMulFrom(a, b, 1)

(* Largest digit d with d * b <= r, by bisection on lo..hi. *)
RECURSIVE QuotDigit(_, _, _, _)
QuotDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF DLess(r, DMulDigit(b, mid)) THEN QuotDigit(r, b, lo, mid - 1) ELSE QuotDigit(r, b, mid, hi)

(* Long division of a by b > 0: <<quotient, remainder>>. *)
RECURSIVE DDivFrom(_, _, _)
DDivFrom(a, b, k) ==
  IF k > Len(a) THEN <<<<>>, <<>>>>
  ELSE LET h == DDivFrom(a, b, k + 1)
           r == DAdd(Shifted(h[2], 1), IF a[k] = 0 THEN <<>> ELSE <<a[k]>>)
           q == QuotDigit(r, b, 0, B - 1)
       IN <<DAdd(Shifted(h[1], 1), IF q = 0 THEN <<>> ELSE <<q>>), DSub(r, DMulDigit(b, q))>>
DDivMod(a, b) == DDivFrom(a, b, 1)

RECURSIVE DPow(_, _)
DPow(a, n) == IF n = 0 THEN <<1>> ELSE DMul(a, DPow(a, n - 1))

RECURSIVE DGcd(_, _)
DGcd(a, b) == IF b = <<>> THEN a ELSE DGcd(b, DDivMod(a, b)[2])
=============================================================================
