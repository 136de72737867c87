------------------------------- MODULE Values -------------------------------
(* Values, types, texts and float formats of the library's interface.        *)
(* No state here; the state machine is in module Ibig.                       *)
EXTENDS Integers, Sequences, BigZ

(* A configuration of the library: word and usize width, and the advertised  *)
(* maximum bit length, as an integer (zmax) and as a TLC number (max; lengths*)
(* that do not fit TLC's numbers are beyond every number we can build).      *)
MkCfg(wbits, ubits, zmax) ==
  [wbits |-> wbits, ubits |-> ubits, zmax |-> zmax,
   max |-> IF ZBitLen(zmax) > 30 THEN 1073741823 ELSE ZToInt(zmax)]

UnsignedPrims == {"u8", "u16", "u32", "u64", "u128", "usize"}
SignedPrims == {"i8", "i16", "i32", "i64", "i128", "isize"}
Prims == UnsignedPrims \cup SignedPrims
IntTypes == Prims \cup {"u", "i", "bool"}

PrimBits(t, cfg) ==
  CASE t \in {"u8", "i8"} -> 8 [] t \in {"u16", "i16"} -> 16 [] t \in {"u32", "i32"} -> 32
    [] t \in {"u64", "i64"} -> 64 [] t \in {"u128", "i128"} -> 128 [] OTHER -> cfg.ubits

(* Is the integer z a value of type t? *)
Fits(t, z, cfg) ==
  CASE t = "u" -> ~z.neg /\ ZBitLen(z) <= cfg.max
    [] t = "i" -> ZBitLen(z) <= cfg.max
    [] t \in UnsignedPrims -> ~z.neg /\ ZBitLen(z) <= PrimBits(t, cfg)
    [] t \in SignedPrims -> ZBitLen(IF z.neg THEN ZNot(z) ELSE z) <= PrimBits(t, cfg) - 1
    [] t = "bool" -> z \in {Z0, Z1}
    [] OTHER -> TRUE

V(t, z) == [t |-> t, z |-> z]
VM(z, g) == [t |-> "m", z |-> z, g |-> g]
VX(t, x) == [t |-> t, x |-> x]
Absent == [t |-> "none"]
VBool(b) == V("bool", IF b THEN Z1 ELSE Z0)

(* Outcomes of a call. *)
Panic == [o |-> "panic", r |-> <<>>]
NoneO == [o |-> "none", r |-> <<>>]
ErrO(k) == [o |-> k, r |-> <<>>]
(* Results as integers with their types: a result that is not a value of its *)
(* type (negative unsigned, too long, out of a primitive's range) is a panic.*)
OkV(vals, cfg) ==
  IF \A k \in 1..Len(vals) : vals[k].t \in IntTypes => Fits(vals[k].t, vals[k].z, cfg)
  THEN [o |-> "ok", r |-> vals] ELSE Panic

(* ---------------------------------------------------------------- texts -- *)
Plus == 43
Minus == 45
Digit0 == 48
(* The digit denoted by a character, or 99. *)
DigitOf(c) ==
  CASE c >= 48 /\ c <= 57 -> c - 48
    [] c >= 97 /\ c <= 122 -> c - 87
    [] c >= 65 /\ c <= 90 -> c - 55
    [] OTHER -> 99
From(s, k) == SubSeq(s, k, Len(s))
StartsWith(s, c) == Len(s) >= 1 /\ s[1] = c

(* Digits after sign and prefix: error or value. *)
Numeral(s, radix) ==
  IF s = <<>> THEN [e |-> "err:nodigits", z |-> Z0]
  ELSE IF \E k \in 1..Len(s) : DigitOf(s[k]) >= radix THEN [e |-> "err:invalid", z |-> Z0]
  ELSE [e |-> "ok", z |-> ZFromDigits([k \in 1..Len(s) |-> DigitOf(s[k])], radix)]

HasPrefix(s, c) == Len(s) >= 2 /\ s[1] = 48 /\ s[2] = c
PrefixedNumeral(s) ==
  IF HasPrefix(s, 98) THEN Numeral(From(s, 3), 2)
  ELSE IF HasPrefix(s, 111) THEN Numeral(From(s, 3), 8)
  ELSE IF HasPrefix(s, 120) THEN Numeral(From(s, 3), 16)
  ELSE Numeral(s, 10)

SkipPlus(s) == IF StartsWith(s, Plus) THEN From(s, 2) ELSE s
(* radix 0: by prefix *)
Unsigned(s, radix) == IF radix = 0 THEN PrefixedNumeral(s) ELSE Numeral(s, radix)
ParseText(t, s, radix) ==
  IF t = "i" /\ StartsWith(s, Minus)
  THEN LET u == Unsigned(From(s, 2), radix) IN [e |-> u.e, z |-> ZNeg(u.z)]
  ELSE Unsigned(SkipPlus(s), radix)

(* Source literals of the macros: optional minus (ibig! only), optional      *)
(* prefix, digits and underscores.  radix 0: by prefix.                      *)
DropUnderscores(s) == SelectSeq(s, LAMBDA c : c # 95)
LiteralValue(s, radix) ==
  LET neg == StartsWith(s, Minus)
      u == Unsigned(DropUnderscores(IF neg THEN From(s, 2) ELSE s), radix)
  IN [e |-> u.e, z |-> IF neg THEN ZNeg(u.z) ELSE u.z]

DigitChar(d, upper) == IF d < 10 THEN 48 + d ELSE IF upper THEN 55 + d ELSE 87 + d
(* At least one digit. *)
NumeralText(z, radix, upper) ==
  LET d == ZDigits(z, radix) IN IF d = <<>> THEN <<48>> ELSE [k \in 1..Len(d) |-> DigitChar(d[k], upper)]
Repeat(c, n) == [k \in 1..n |-> c]

(* A formatting request: kind (one of d D b o x X r), radix for r, flags     *)
(* ('+' 1, '#' 2, '0' 4), width (0 none), fill (0: default), align.          *)
HasFlag(q, n) == (q.flags \div n) % 2 = 1
KindRadix(q) ==
  CASE q.kind = "b" -> 2 [] q.kind = "o" -> 8 [] q.kind \in {"x", "X"} -> 16 [] q.kind = "r" -> q.radix
    [] OTHER -> 10
Letter(q) == CASE q.kind = "b" -> 98 [] q.kind = "o" -> 111 [] OTHER -> 120
IntText(z, q) ==
  LET upper == q.kind = "X" \/ (q.kind = "r" /\ HasFlag(q, 2))
      sign == IF z.neg THEN <<Minus>> ELSE IF HasFlag(q, 1) THEN <<Plus>> ELSE <<>>
      prefix == IF HasFlag(q, 2) /\ q.kind \in {"b", "o", "x", "X"} THEN <<48, Letter(q)>> ELSE <<>>
      digits == NumeralText(z, KindRadix(q), upper)
      len == Len(sign) + Len(prefix) + Len(digits)
      pad == IF q.width > len THEN q.width - len ELSE 0
      fill == IF q.fill = 0 THEN 32 ELSE q.fill
      left == CASE q.align = 1 -> 0 [] q.align = 2 -> pad \div 2 [] OTHER -> pad
  IN IF HasFlag(q, 4) THEN sign \o prefix \o Repeat(48, pad) \o digits
     ELSE Repeat(fill, left) \o sign \o prefix \o digits \o Repeat(fill, pad - left)
ModText(m, q) == <<109, 111, 100, 32>> \o IntText(m, q)
ResText(z, m, q) == IntText(z, q) \o <<32, 40>> \o ModText(m, q) \o <<41>>

(* --------------------------------------------------------------- floats -- *)
(* The bit pattern of the float nearest to z, ties to even; p bits of        *)
(* significand, largest exponent emax.  (Every non-zero integer is normal.)  *)
FloatBits(z, p, emax) ==
  LET a == ZAbs(z)
      n == ZBitLen(a)
      sh == n - p
      signbit == IF z.neg THEN ZTwo(p + ZBitLen(ZInt(emax))) ELSE Z0
      exact == sh <= 0
      q == IF exact THEN ZShl(a, p - n) ELSE ZShrFloor(a, sh)
      rest == ZSub(a, ZShl(q, sh))
      half == ZTwo(sh - 1)
      up == IF exact THEN FALSE
            ELSE ZLt(half, rest) \/ (rest = half /\ ZOdd(q))
      q1 == IF up THEN ZAdd(q, Z1) ELSE q
      carry == ZBitLen(q1) > p
      e == n - 1 + (IF carry THEN 1 ELSE 0)
      frac == IF carry THEN Z0 ELSE ZSub(q1, ZTwo(p - 1))
  IN IF n = 0 THEN Z0
     ELSE IF n > emax + 2 \/ e > emax THEN ZAdd(signbit, ZShl(ZInt(2 * emax + 1), p - 1))
     ELSE ZAdd(signbit, ZAdd(ZShl(ZInt(e + emax), p - 1), frac))

(* ---------------------------------------------------------------- bytes -- *)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
BytesLE(z) == Rev(ZDigits(z, 256))
BytesBE(z) == ZDigits(z, 256)

(* Number of n-bit words of |z| (0 for zero). *)
Words(z, n) == (ZBitLen(z) + n - 1) \div n
Word64(z, k) == LET s == ZShrFloor(z, 64 * (k - 1)) IN ZSub(s, ZShl(ZShrFloor(s, 64), 64))
=============================================================================
