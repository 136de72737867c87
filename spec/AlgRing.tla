------------------------------- MODULE AlgRing --------------------------------
(* Arithmetic in a ring of integers modulo m, as the library does it: the    *)
(* modulus is shifted until its top word is normalized, residues are kept    *)
(* shifted by as much, sums are corrected by one subtraction in fixed width, *)
(* products are shifted back before they are reduced.                        *)
EXTENDS Integers, Sequences, BigZ
CONSTANT WB
VARIABLES m, x, y, op, a, b, r, pc, path
vars == <<m, x, y, op, a, b, r, pc, path>>

W == ZTwo(WB)
Words(z) == (ZBitLen(z) + WB - 1) \div WB
Long == Words(m) > 1
Len_ == Words(m)
Cap == ZTwo(Len_ * WB)          \* first number that does not fit in the modulus' words
Shift == (WB - (ZBitLen(m) % WB)) % WB
M == ZShl(m, Shift)
Rem(z) == ZMod(z, M)

(* ------------------------------------------------------- conversions in -- *)
MagCase(z) ==
  IF ~Long THEN (IF Words(z) <= 1 THEN (IF Shift = 0 THEN "word" ELSE "word shifted") ELSE (IF Shift = 0 THEN "words" ELSE "words shifted"))
  ELSE IF Words(z) <= 1 THEN "word"
  ELSE LET s == ZShl(z, Shift)
       IN IF Words(s) > Words(z) THEN (IF Words(s) < Len_ THEN "grown short" ELSE "grown")
          ELSE IF Words(s) < Len_ THEN "short" ELSE IF ZLt(s, M) THEN "reduced" ELSE "long"
InMag(z) ==
  LET c == MagCase(z)
  IN CASE c = "word" -> (IF Long THEN ZShl(z, Shift) ELSE Rem(z))
       [] c = "word shifted" -> Rem(ZShl(z, Shift))
       [] c = "words" -> Rem(z)
       [] c = "words shifted" -> Rem(ZShl(Rem(z), Shift))
       [] c \in {"grown short", "short"} -> ZShl(z, Shift)
       [] OTHER -> Rem(ZShl(z, Shift))
Negate(v) == IF v = Z0 THEN Z0 ELSE ZSub(M, v)
In(z) == IF z.neg THEN Negate(InMag(ZAbs(z))) ELSE InMag(z)

(* ------------------------------------------------------------ arithmetic - *)
(* Fixed width: a sum loses its carry, a difference wraps around.            *)
Wrap(z) == ZMod(z, Cap)
AddWrap(v, w) == Wrap(ZAdd(v, w))
Carry(v, w) == ~ZLt(ZAdd(v, w), Cap)
SubWrap(v, w) == Wrap(ZSub(v, w))
Borrow(v, w) == ZLt(v, w)
Sum(v, w) ==
  LET s == AddWrap(v, w)
  IN IF Carry(v, w) \/ ~ZLt(s, M) THEN SubWrap(s, M) ELSE s
Difference(v, w) ==
  LET d == SubWrap(v, w)
  IN IF Borrow(v, w) THEN AddWrap(d, M) ELSE d
Product(v, w) ==
  IF Long THEN Rem(ZShrFloor(ZMul(v, w), Shift)) ELSE Rem(ZMul(ZShrFloor(v, Shift), w))
Out(v) == ZShrFloor(v, Shift)

Begin(n, p, q, f) ==
  /\ m = n /\ x = p /\ y = q /\ op = f /\ a = Z0 /\ b = Z0 /\ r = Z0 /\ pc = "in" /\ path = <<>>
Enter ==
  /\ pc = "in" /\ pc' = "op"
  /\ a' = In(x) /\ b' = In(y)
  /\ path' = <<MagCase(ZAbs(x)), x.neg, MagCase(ZAbs(y)), y.neg>>
  /\ UNCHANGED <<m, x, y, op, r>>
Add == /\ pc = "op" /\ op = "add" /\ pc' = "done" /\ r' = Sum(a, b)
       /\ path' = Append(path, IF Carry(a, b) THEN "carry" ELSE IF ~ZLt(AddWrap(a, b), M) THEN "over" ELSE "plain")
       /\ UNCHANGED <<m, x, y, op, a, b>>
Sub == /\ pc = "op" /\ op = "sub" /\ pc' = "done" /\ r' = Difference(a, b)
       /\ path' = Append(path, IF Borrow(a, b) THEN "borrow" ELSE IF a = b THEN "equal" ELSE "plain")
       /\ UNCHANGED <<m, x, y, op, a, b>>
Neg == /\ pc = "op" /\ op = "neg" /\ pc' = "done" /\ r' = Negate(a)
       /\ path' = Append(path, IF a = Z0 THEN "zero" ELSE "plain")
       /\ UNCHANGED <<m, x, y, op, a, b>>
Mul == /\ pc = "op" /\ op = "mul" /\ pc' = "done" /\ r' = Product(a, b)
       /\ path' = Append(path, IF ZMul(a, b) = Z0 THEN "zero" ELSE IF ZLt(ZShrFloor(ZMul(a, b), Shift), M) THEN "short" ELSE "plain")
       /\ UNCHANGED <<m, x, y, op, a, b>>
Next == Enter \/ Add \/ Sub \/ Neg \/ Mul

Valid(v) == ZLe(Z0, v) /\ ZLt(v, M) /\ ZMod(v, ZTwo(Shift)) = Z0
Normalized == Words(M) = Len_ /\ ZBitLen(M) = Len_ * WB
Kept == pc # "in" => Valid(a) /\ Valid(b) /\ Out(a) = ZMod(x, m) /\ Out(b) = ZMod(y, m)
(* A carry out of the sum is exactly undone by the correction.               *)
Balanced == pc = "op" =>
  /\ (Carry(a, b) \/ ~ZLt(AddWrap(a, b), M)) => (Carry(a, b) = Borrow(AddWrap(a, b), M))
  /\ Borrow(a, b) => Carry(SubWrap(a, b), M)
Value == CASE op = "add" -> ZAdd(x, y) [] op = "sub" -> ZSub(x, y) [] op = "neg" -> ZNeg(x) [] OTHER -> ZMul(x, y)
Correct == pc = "done" => Valid(r) /\ Out(r) = ZMod(Value, m)
===============================================================================
