------------------------------ MODULE BigZPure ------------------------------
(* Integers: a sign and a magnitude given by digits in base B.  Zero has no  *)
(* sign.  Every operation of the specification bottoms out here.             *)
EXTENDS Digits, Integers

ZMk(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
IsZ(z) == z.neg \in BOOLEAN /\ IsDigits(z.mag) /\ (z.mag = <<>> => ~z.neg)

ZInt(n) == IF n < 0 THEN ZMk(TRUE, DFromNat(0 - n)) ELSE ZMk(FALSE, DFromNat(n))
ZToInt(z) == IF z.neg THEN 0 - DToNat(z.mag) ELSE DToNat(z.mag)
ZNeg(z) == ZMk(~z.neg, z.mag)
ZAbs(z) == ZMk(FALSE, z.mag)
ZSgn(z) == IF z.mag = <<>> THEN 0 ELSE IF z.neg THEN 0 - 1 ELSE 1
ZCmp(a, b) ==
  IF a.neg # b.neg THEN (IF a.neg THEN 0 - 1 ELSE 1)
  ELSE IF a.neg THEN 1 - DCmp(a.mag, b.mag) ELSE DCmp(a.mag, b.mag) - 1
ZAdd(a, b) ==
  IF a.neg = b.neg THEN ZMk(a.neg, DAdd(a.mag, b.mag))
  ELSE IF DLess(a.mag, b.mag) THEN ZMk(b.neg, DSub(b.mag, a.mag)) ELSE ZMk(a.neg, DSub(a.mag, b.mag))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == ZMk(a.neg # b.neg, DMul(a.mag, b.mag))
(* Division truncating toward zero, b # 0. *)
ZDivT(a, b) == ZMk(a.neg # b.neg, DDivMod(a.mag, b.mag)[1])
ZRemT(a, b) == ZMk(a.neg, DDivMod(a.mag, b.mag)[2])
(* n a natural number *)
ZPow(z, n) == ZMk(z.neg /\ n % 2 = 1, DPow(z.mag, n))
Two(n) == DPow(DFromNat(2), n)
ZShl(z, n) == ZMk(z.neg, DMul(z.mag, Two(n)))
(* floor(z / 2^n) *)
ZShrFloor(z, n) ==
  LET d == DDivMod(z.mag, Two(n))
  IN IF z.neg /\ d[2] # <<>> THEN ZMk(TRUE, DAdd(d[1], <<1>>)) ELSE ZMk(z.neg, d[1])
(* Bits of the infinite two's complement form. *)
ZOdd(z) == z.mag # <<>> /\ DDivMod(z.mag, DFromNat(2))[2] # <<>>
ZBit(z, n) == ZOdd(ZShrFloor(z, n))
(* bits of |z| *)
RECURSIVE DBitLen(_)
DBitLen(s) == IF s = <<>> THEN 0 ELSE 1 + DBitLen(DDivMod(s, DFromNat(2))[1])
ZBitLen(z) == DBitLen(z.mag)
(* z # 0 *)
RECURSIVE ZTz(_)
ZTz(z) == IF ZOdd(z) THEN 0 ELSE 1 + ZTz(ZShrFloor(z, 1))
(* The integer whose bits are Op applied to the bits of a and b: all bits    *)
(* from the longer length up equal the sign bit.                             *)
RECURSIVE BitwiseFrom(_, _, _, _)
BitwiseFrom(Op(_, _), a, b, n) ==
  LET s == Op(a.neg, b.neg)
  IN IF n = 0 THEN (IF s THEN ZInt(0 - 1) ELSE ZInt(0))
     ELSE LET h == BitwiseFrom(Op, ZShrFloor(a, 1), ZShrFloor(b, 1), n - 1)
          IN ZAdd(ZAdd(h, h), IF Op(ZOdd(a), ZOdd(b)) THEN ZInt(1) ELSE ZInt(0))
MaxN(a, b) == IF a < b THEN b ELSE a
Bitwise(Op(_, _), a, b) == BitwiseFrom(Op, a, b, MaxN(ZBitLen(a), ZBitLen(b)) + 1)
ZAnd(a, b) == Bitwise(LAMBDA p, q : p /\ q, a, b)
ZOr(a, b) == Bitwise(LAMBDA p, q : p \/ q, a, b)
ZXor(a, b) == Bitwise(LAMBDA p, q : p # q, a, b)
ZNot(z) == ZSub(ZInt(0 - 1), z)
ZGcd(a, b) == ZMk(FALSE, DGcd(a.mag, b.mag))
(* a in Z, e >= 0, m >= 1: a^e mod m in 0..m-1 *)
ZMod(a, m) == LET r == ZRemT(a, m) IN IF r.neg THEN ZAdd(r, m) ELSE r
RECURSIVE ZPowMod(_, _, _)
ZPowMod(a, e, m) ==
  IF e.mag = <<>> THEN ZMod(ZInt(1), m)
  ELSE IF ZOdd(e) THEN ZMod(ZMul(a, ZPowMod(a, ZSub(e, ZInt(1)), m)), m)
  ELSE ZPowMod(ZMod(ZMul(a, a), m), ZShrFloor(e, 1), m)
(* Most significant digit first, in another radix. *)
RECURSIVE ZFromDigits(_, _)
ZFromDigits(s, radix) ==
  IF s = <<>> THEN ZInt(0)
  ELSE ZAdd(ZMul(ZFromDigits(SubSeq(s, 1, Len(s) - 1), radix), ZInt(radix)), ZInt(s[Len(s)]))
RECURSIVE ZDigits(_, _)
ZDigits(z, radix) ==
  IF z.mag = <<>> THEN <<>>
  ELSE LET d == DDivMod(z.mag, DFromNat(radix))
       IN Append(ZDigits(ZMk(FALSE, d[1]), radix), DToNat(d[2]))
(* Hexadecimal text with optional minus, the notation of traces. *)
HexVal(c) == CHOOSE n \in 0..15 : SubSeq("0123456789abcdef", n + 1, n + 1) = c
RECURSIVE ZHexFrom(_)
ZHexFrom(s) == IF s = "" THEN ZInt(0)
               ELSE ZAdd(ZMul(ZHexFrom(SubSeq(s, 1, Len(s) - 1)), ZInt(16)),
                         ZInt(HexVal(SubSeq(s, Len(s), Len(s)))))
ZHex(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = "-" THEN ZNeg(ZHexFrom(SubSeq(s, 2, Len(s)))) ELSE ZHexFrom(s)
RECURSIVE ZTextFrom(_)
ZTextFrom(d) == IF d = <<>> THEN "" ELSE SubSeq("0123456789abcdef", d[1] + 1, d[1] + 1) \o ZTextFrom(Tail(d))
ZText(z) == IF z.mag = <<>> THEN "0"
            ELSE (IF z.neg THEN "-" ELSE "") \o ZTextFrom(ZDigits(ZMk(FALSE, z.mag), 16))
(* Is s the (canonical) hexadecimal text of z?  Leading zeros, "-0" are not. *)
ZIsHex(s, z) == /\ ZHex(s) = z
                /\ Len(s) > 0
                /\ LET d == IF SubSeq(s, 1, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s
                   IN (Len(d) > 1 => SubSeq(d, 1, 1) # "0") /\ (SubSeq(s, 1, 1) = "-" => z.neg)
=============================================================================
