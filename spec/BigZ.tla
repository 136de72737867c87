-------------------------------- MODULE BigZ --------------------------------
(* The integers used by the specification: BigZPure with base-4096 digits.   *)
(* When the class in ../java is on TLC's class path, the operators of THIS   *)
(* module (not those of BigZPure) are evaluated by java.math.BigInteger on   *)
(* the same representation.  MCBigZ checks that both give the same results.  *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
P == INSTANCE BigZPure WITH B <- 4096

ZInt(n) == P!ZInt(n)
ZToInt(z) == P!ZToInt(z)
ZNeg(z) == P!ZNeg(z)
ZAbs(z) == P!ZAbs(z)
ZSgn(z) == P!ZSgn(z)
ZCmp(a, b) == P!ZCmp(a, b)
ZAdd(a, b) == P!ZAdd(a, b)
ZSub(a, b) == P!ZSub(a, b)
ZMul(a, b) == P!ZMul(a, b)
ZDivT(a, b) == P!ZDivT(a, b)
ZRemT(a, b) == P!ZRemT(a, b)
ZPow(z, n) == P!ZPow(z, n)
ZShl(z, n) == P!ZShl(z, n)
ZShrFloor(z, n) == P!ZShrFloor(z, n)
ZOdd(z) == P!ZOdd(z)
ZBit(z, n) == P!ZBit(z, n)
ZBitLen(z) == P!ZBitLen(z)
ZTz(z) == P!ZTz(z)
ZAnd(a, b) == P!ZAnd(a, b)
ZOr(a, b) == P!ZOr(a, b)
ZXor(a, b) == P!ZXor(a, b)
ZNot(z) == P!ZNot(z)
ZGcd(a, b) == P!ZGcd(a, b)
ZMod(a, m) == P!ZMod(a, m)
ZPowMod(a, e, m) == P!ZPowMod(a, e, m)
ZFromDigits(s, radix) == P!ZFromDigits(s, radix)
ZDigits(z, radix) == P!ZDigits(z, radix)
ZHex(s) == P!ZHex(s)
ZText(z) == P!ZText(z)
ZIsHex(s, z) == P!ZIsHex(s, z)

(* Derived, never overridden. *)
Z0 == ZInt(0)
Z1 == ZInt(1)
ZNegative(z) == z.neg
ZIsZero(z) == z.mag = <<>>
ZLt(a, b) == ZCmp(a, b) < 0
ZLe(a, b) == ZCmp(a, b) <= 0
(* Euclidean division, b # 0: remainder in 0..|b|-1. *)
ZRemE(a, b) == ZMod(a, ZAbs(b))
ZDivE(a, b) == ZDivT(ZSub(a, ZRemE(a, b)), b)
ZTwo(n) == ZShl(Z1, n)
=============================================================================
