------------------------------ MODULE MCDigits ------------------------------
(* The definitions of BigZPure against TLC's own (small) integers, in a      *)
(* small base, exhaustively for all pairs of integers in -N..N.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Base, N
INSTANCE BigZPure WITH B <- Base
VARIABLES a, b, ready

Init == a \in (0 - N)..N /\ b = a /\ ready = FALSE
Next == ready = FALSE /\ ready' = TRUE /\ b' \in (0 - N)..N /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, ready>>

Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* Truncating and flooring forms in terms of TLC's floor division by a positive divisor. *)
TDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN 0 - q ELSE q
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)
RECURSIVE IGcd(_, _)
IGcd(x, y) == IF y = 0 THEN x ELSE IGcd(y, x % y)
IBit(x, n) == (x \div IPow(2, n)) % 2 = 1

Z(x) == ZInt(x)
Repr == ready =>
  IsZ(Z(a)) /\ ZToInt(Z(a)) = a
Ring == ready =>
  /\ ZAdd(Z(a), Z(b)) = Z(a + b)
  /\ ZSub(Z(a), Z(b)) = Z(a - b)
  /\ ZMul(Z(a), Z(b)) = Z(a * b)
  /\ ZNeg(Z(a)) = Z(0 - a) /\ ZAbs(Z(a)) = Z(Abs(a))
  /\ ZSgn(Z(a)) = (IF a < 0 THEN 0 - 1 ELSE IF a = 0 THEN 0 ELSE 1)
  /\ ZCmp(Z(a), Z(b)) = (IF a < b THEN 0 - 1 ELSE IF a = b THEN 0 ELSE 1)
  /\ ZNot(Z(a)) = Z(0 - 1 - a)
Div == (ready /\ b # 0) =>
  /\ ZDivT(Z(a), Z(b)) = Z(TDiv(a, b))
  /\ ZRemT(Z(a), Z(b)) = Z(a - b * TDiv(a, b))
  /\ b > 0 => ZMod(Z(a), Z(b)) = Z(a % b)
Bits == ready =>
  \A n \in 0..6 :
     /\ ZBit(Z(a), n) = IBit(a, n)
     /\ ZBit(ZAnd(Z(a), Z(b)), n) = (IBit(a, n) /\ IBit(b, n))
     /\ ZBit(ZOr(Z(a), Z(b)), n) = (IBit(a, n) \/ IBit(b, n))
     /\ ZBit(ZXor(Z(a), Z(b)), n) = (IBit(a, n) # IBit(b, n))
Shifts == ready =>
  \A n \in 0..4 : /\ ZShl(Z(a), n) = Z(a * IPow(2, n))
                  /\ ZShrFloor(Z(a), n) = Z(a \div IPow(2, n))
Lengths == ready =>
  /\ ZBitLen(Z(a)) = (CHOOSE n \in 0..12 : Abs(a) < IPow(2, n) /\ (n = 0 \/ Abs(a) >= IPow(2, n - 1)))
  /\ a # 0 => (a % IPow(2, ZTz(Z(a))) = 0 /\ a % IPow(2, ZTz(Z(a)) + 1) # 0)
Powers == ready =>
  /\ \A n \in 0..3 : ZPow(Z(a), n) = Z(IPow(a, n))
  /\ b > 0 => \A n \in 0..5 : ZPowMod(Z(a % b), Z(n), Z(b)) = Z(IPow(a % b, n) % b)
Gcd == ready =>
  ZGcd(Z(a), Z(b)) = Z(IGcd(Abs(a), Abs(b)))
Texts == ready =>
  /\ \A r \in {2, 10, 16, 36} : /\ ZFromDigits(ZDigits(ZAbs(Z(a)), r), r) = Z(Abs(a))
                                /\ \A k \in 1..Len(ZDigits(Z(a), r)) : ZDigits(Z(a), r)[k] \in 0..(r - 1)
  /\ ZHex("-1f") = Z(0 - 31) /\ ZHex("0") = Z(0) /\ ZHex("a0") = Z(160)
  /\ ZIsHex("-1f", Z(0 - 31)) /\ ~ZIsHex("01f", Z(31)) /\ ~ZIsHex("-0", Z(0)) /\ ~ZIsHex("1e", Z(31))
=============================================================================
