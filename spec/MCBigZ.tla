------------------------------- MODULE MCBigZ -------------------------------
(* The accelerated operators of BigZ against their definitions (BigZPure),   *)
(* for all pairs of multi-digit samples with extreme digits, both signs.     *)
EXTENDS Integers, Sequences, BigZ, TLC
CONSTANT MaxLen
VARIABLES a, b, ready

Edge == {0, 1, 2048, 4095}
Mags == {s \in UNION {[1..n -> Edge] : n \in 0..MaxLen} : s = <<>> \/ s[Len(s)] # 0}
Samples == {P!ZMk(g, m) : g \in BOOLEAN, m \in Mags \cup {<<5>>, <<1234, 77>>}}
Init == a \in Samples /\ b = a /\ ready = FALSE
Next == ready = FALSE /\ ready' = TRUE /\ b' \in Samples /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, ready>>

Pairwise == ready =>
  /\ ZAdd(a, b) = P!ZAdd(a, b) /\ ZSub(a, b) = P!ZSub(a, b) /\ ZMul(a, b) = P!ZMul(a, b)
  /\ ZCmp(a, b) = P!ZCmp(a, b)
  /\ b.mag # <<>> => (ZDivT(a, b) = P!ZDivT(a, b) /\ ZRemT(a, b) = P!ZRemT(a, b))
  /\ (b.mag # <<>> /\ ~b.neg) => ZMod(a, b) = P!ZMod(a, b)
  /\ ZGcd(a, b) = P!ZGcd(a, b)
Bitwise2 == ready => ZAnd(a, b) = P!ZAnd(a, b) /\ ZOr(a, b) = P!ZOr(a, b) /\ ZXor(a, b) = P!ZXor(a, b)
Single ==
  ready /\ b.mag = <<5>> /\ ~b.neg =>
  /\ ZNeg(a) = P!ZNeg(a) /\ ZAbs(a) = P!ZAbs(a) /\ ZSgn(a) = P!ZSgn(a) /\ ZNot(a) = P!ZNot(a)
  /\ ZOdd(a) = P!ZOdd(a) /\ ZBitLen(a) = P!ZBitLen(a) /\ (a.mag # <<>> => ZTz(a) = P!ZTz(a))
  /\ \A n \in {0, 1, 2, 3} : ZPow(a, n) = P!ZPow(a, n)
  /\ \A n \in {0, 1, 11, 12, 13, 30} : /\ ZShl(a, n) = P!ZShl(a, n) /\ ZShrFloor(a, n) = P!ZShrFloor(a, n)
                                       /\ ZBit(a, n) = P!ZBit(a, n)
  /\ \A r \in {2, 7, 10, 16, 36, 256} : /\ ZDigits(ZAbs(a), r) = P!ZDigits(ZAbs(a), r)
                                        /\ ZFromDigits(ZDigits(ZAbs(a), r), r) = ZAbs(a)
                                        /\ P!ZFromDigits(ZDigits(ZAbs(a), r), r) = ZAbs(a)
  /\ ZText(a) = P!ZText(a) /\ ZIsHex(ZText(a), a)
  /\ (~a.neg) => ZPowMod(b, a, ZInt(1001)) = P!ZPowMod(b, a, ZInt(1001))
  /\ Len(a.mag) <= 2 => ZToInt(a) = P!ZToInt(a)
Texts == (ready /\ a = b) =>
  /\ \A s \in {"0", "1", "-1", "fff", "1000", "-1000", "abcdef0123456789abcdef", "7fffffff"} :
        /\ ZHex(s) = P!ZHex(s) /\ ZIsHex(s, ZHex(s)) /\ P!ZIsHex(s, ZHex(s))
  /\ \A s \in {"00", "-0", "0fff", "-01"} : ~ZIsHex(s, ZHex(s)) /\ ~P!ZIsHex(s, ZHex(s))
  /\ \A n \in {0, 1, 0 - 1, 4095, 4096, 2147483647, 0 - 2147483647} : ZInt(n) = P!ZInt(n)
=============================================================================
