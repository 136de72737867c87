-------------------------------- MODULE Ibig --------------------------------
(* The library as a state machine: a program holds values in registers and   *)
(* calls the public API on them.  Big integers are exact integers, elements  *)
(* of modular rings are residues bound to their ring object.  Expect gives   *)
(* the one outcome allowed for a call, Allowed the relation where the        *)
(* interface leaves a choice (Bezout coefficients, random samples, memory).  *)
EXTENDS Values, FiniteSets

VARIABLES cfg, regs, rings
vars == <<cfg, regs, rings>>

BinaryOps == {"add", "sub", "mul", "div", "rem", "divrem", "dive", "reme", "divreme",
              "and", "or", "xor", "andnot"}
DivisionOps == {"div", "rem", "divrem", "dive", "reme", "divreme"}

(* The exact integer result(s). *)
Exact(f, x, y) ==
  CASE f = "add" -> <<ZAdd(x, y)>> [] f = "sub" -> <<ZSub(x, y)>> [] f = "mul" -> <<ZMul(x, y)>>
    [] f = "div" -> <<ZDivT(x, y)>> [] f = "rem" -> <<ZRemT(x, y)>>
    [] f = "divrem" -> <<ZDivT(x, y), ZRemT(x, y)>>
    [] f = "dive" -> <<ZDivE(x, y)>> [] f = "reme" -> <<ZRemE(x, y)>>
    [] f = "divreme" -> <<ZDivE(x, y), ZRemE(x, y)>>
    [] f = "and" -> <<ZAnd(x, y)>> [] f = "or" -> <<ZOr(x, y)>> [] f = "xor" -> <<ZXor(x, y)>>
    [] f = "andnot" -> <<ZAnd(x, ZNot(y))>>

(* Types of the results of x f y for a big integer of type tx. *)
RemType(f, tx, ty) == IF f \in {"rem", "divrem"} /\ tx = "i" /\ ty \notin SignedPrims THEN "i" ELSE ty
BigFirstTypes(f, tx, ty, assign) ==
  IF assign \/ tx = ty THEN (IF f \in {"divrem", "divreme"} THEN <<tx, tx>> ELSE <<tx>>)
  ELSE CASE f \in {"rem", "reme"} -> <<RemType(f, tx, ty)>>
         [] f \in {"divrem", "divreme"} -> <<tx, RemType(f, tx, ty)>>
         [] f = "and" /\ ty \in UnsignedPrims -> <<ty>>
         [] OTHER -> <<tx>>
ResultTypes(f, tx, ty, assign) ==
  IF tx \in {"u", "i"} THEN BigFirstTypes(f, tx, ty, assign)
  ELSE IF f = "and" /\ tx \in UnsignedPrims THEN <<tx>> ELSE <<ty>>

Binary(f, x, y, assign) ==
  IF f \in DivisionOps /\ y.z = Z0 THEN Panic
  ELSE LET z == Exact(f, x.z, y.z)
           t == ResultTypes(f, x.t, y.t, assign)
       IN OkV([k \in 1..Len(z) |-> V(t[k], z[k])], cfg)

Modulus(g) == rings[g + 1]
Unit(z, g) == ZGcd(z, Modulus(g)) = Z1
ModBinary(f, x, y) ==
  IF x.g # y.g THEN Panic
  ELSE [o |-> "ok",
        r |-> <<VM(ZMod(CASE f = "add" -> ZAdd(x.z, y.z) [] f = "sub" -> ZSub(x.z, y.z)
                          [] f = "mul" -> ZMul(x.z, y.z), Modulus(x.g)), x.g)>>]

One(v) == OkV(<<v>>, cfg)

ShiftLeft(x, n) ==
  IF x.z = Z0 THEN One(x)
  ELSE IF ZLt(cfg.zmax, ZAdd(n, ZInt(ZBitLen(x.z)))) THEN Panic
  ELSE One(V(x.t, ZShl(x.z, ZToInt(n))))
ShiftRight(x, n) ==
  One(V(x.t, IF ZBitLen(n) > 30 THEN (IF x.z.neg THEN ZInt(0 - 1) ELSE Z0) ELSE ZShrFloor(x.z, ZToInt(n))))
Power(x, n) ==
  IF n = Z0 THEN One(V(x.t, Z1))
  ELSE IF ZBitLen(x.z) <= 1 THEN One(V(x.t, IF x.z.neg /\ ~ZOdd(n) THEN Z1 ELSE x.z))
  ELSE IF ZLe(cfg.zmax, ZMul(ZInt(ZBitLen(x.z) - 1), n)) THEN Panic
  ELSE One(V(x.t, ZPow(x.z, ZToInt(n))))
TestBit(z, n) == ZBitLen(n) <= 30 /\ ZBit(z, ZToInt(n))
PowerOfTwo(z) == ~z.neg /\ z # Z0 /\ ZTz(z) = ZBitLen(z) - 1
SetBit(x, n) ==
  IF TestBit(x.z, n) THEN One(x)
  ELSE IF ZLe(cfg.zmax, n) THEN Panic
  ELSE One(V("u", ZAdd(x.z, ZTwo(ZToInt(n)))))
ClearBit(x, n) == One(IF TestBit(x.z, n) THEN V("u", ZSub(x.z, ZTwo(ZToInt(n)))) ELSE x)
NextPow2(z) == IF z = Z0 THEN Z1 ELSE IF PowerOfTwo(z) THEN z ELSE ZTwo(ZBitLen(z))

Convert(t, z) == IF Fits(t, z, cfg) THEN One(V(t, z)) ELSE ErrO("err:bounds")
ConvTarget == [to_u8 |-> "u8", to_u16 |-> "u16", to_u32 |-> "u32", to_u64 |-> "u64", to_u128 |-> "u128",
               to_usize |-> "usize", to_i8 |-> "i8", to_i16 |-> "i16", to_i32 |-> "i32", to_i64 |-> "i64",
               to_i128 |-> "i128", to_isize |-> "isize"]
ConvOps == DOMAIN ConvTarget

ParseOps == {"parse_u", "parse_i", "radix_u", "radix_i", "num_u", "num_i", "prefix_u", "prefix_i"}
ParseType(f) == IF f \in {"parse_u", "radix_u", "num_u", "prefix_u"} THEN "u" ELSE "i"
ValidRadix(n) == ZBitLen(n) <= 6 /\ ZToInt(n) >= 2 /\ ZToInt(n) <= 36
Parse(f, s, radix) ==
  LET p == ParseText(ParseType(f), s, radix)
  IN IF p.e = "ok" THEN One(V(ParseType(f), p.z)) ELSE ErrO(p.e)

FmtRequest(a) ==
  [kind |-> a[2].x, radix |-> IF ZBitLen(a[3].z) > 30 THEN 0 ELSE ZToInt(a[3].z),
   flags |-> ZToInt(a[4].z), width |-> ZToInt(a[5].z), fill |-> ZToInt(a[6].z), align |-> ZToInt(a[7].z)]
Format(a) ==
  LET q == FmtRequest(a)
      v == a[1]
  IN IF q.kind = "r" /\ ~ValidRadix(a[3].z) THEN Panic
     ELSE [o |-> "ok",
           r |-> <<VX("s", CASE v.t = "g" -> ModText(Modulus(v.x), q)
                             [] v.t = "m" -> ResText(v.z, Modulus(v.g), q)
                             [] OTHER -> IntText(v.z, q))>>]
PlainRequest(kind) == [kind |-> kind, radix |-> 10, flags |-> 0, width |-> 0, fill |-> 0, align |-> 0]

(* Serialized form: a sequence of 64-bit words; a pair of sign and such a    *)
(* sequence for signed integers.                                             *)
WordTokens(z) ==
  LET n == Words(z, 64)
  IN <<[k |-> "seq", z |-> ZInt(n)]>> \o [j \in 1..n |-> [k |-> "u64", z |-> Word64(z, j)]]
       \o <<[k |-> "end", z |-> Z0]>>
Tokens(x) ==
  IF x.t = "u" THEN WordTokens(x.z)
  ELSE <<[k |-> "tuple", z |-> ZInt(2)],
         IF x.z.neg THEN [k |-> "Sign.Negative", z |-> Z1] ELSE [k |-> "Sign.Positive", z |-> Z0]>>
       \o WordTokens(ZAbs(x.z)) \o <<[k |-> "end", z |-> Z0]>>

(* Literal operands that are small natural numbers. *)
N(v) == ZToInt(v.z)

(* ------------------------------------------------- deterministic calls -- *)
MarkOps == {"clone", "default", "u2i", "neg", "not", "abs", "uabs", "signum"}
Expect(f, a, assign) ==
  CASE f \in BinaryOps -> (IF a[1].t = "m" THEN ModBinary(f, a[1], a[2]) ELSE Binary(f, a[1], a[2], assign))
    [] f = "load" -> One(a[1])
    [] f = "neg" -> (IF a[1].t = "m" THEN [o |-> "ok", r |-> <<VM(ZMod(ZNeg(a[1].z), Modulus(a[1].g)), a[1].g)>>]
                     ELSE One(V("i", ZNeg(a[1].z))))
    [] f = "not" -> One(V("i", ZNot(a[1].z)))
    [] f = "abs" -> One(V("i", ZAbs(a[1].z)))
    [] f = "uabs" -> One(V("u", ZAbs(a[1].z)))
    [] f = "signum" -> One(V("i", ZInt(ZSgn(a[1].z))))
    [] f = "shl" -> ShiftLeft(a[1], a[2].z)
    [] f = "shr" -> ShiftRight(a[1], a[2].z)
    [] f = "pow" -> Power(a[1], a[2].z)
    [] f = "bit" -> One(VBool(TestBit(a[1].z, a[2].z)))
    [] f = "setbit" -> SetBit(a[1], a[2].z)
    [] f = "clearbit" -> ClearBit(a[1], a[2].z)
    [] f = "bitlen" -> One(V("usize", ZInt(ZBitLen(a[1].z))))
    [] f = "tz" -> (IF a[1].z = Z0 THEN NoneO ELSE One(V("usize", ZInt(ZTz(a[1].z)))))
    [] f = "ispow2" -> One(VBool(PowerOfTwo(a[1].z)))
    [] f = "nextpow2" -> One(V("u", NextPow2(a[1].z)))
    [] f = "clone" -> [o |-> "ok", r |-> <<a[1]>>]
    [] f = "clonefrom" -> [o |-> "ok", r |-> <<a[2]>>]
    [] f = "get" -> [o |-> "ok", r |-> <<V(CASE a[1].t = "u" -> "gu" [] a[1].t = "i" -> "gi" [] OTHER -> "gm", a[1].z)>>]
    [] f = "default" -> One(V(IF a[1].z = Z0 THEN "u" ELSE "i", Z0))
    [] f = "u2i" -> One(V("i", a[1].z))
    [] f = "i2u" -> Convert("u", a[1].z)
    [] f = "fromu" -> Convert("u", a[1].z)
    [] f = "fromi" -> Convert("i", a[1].z)
    [] f \in ConvOps -> Convert(ConvTarget[f], a[1].z)
    [] f = "gcd" -> (IF a[1].z = Z0 /\ a[2].z = Z0 THEN Panic ELSE One(V(a[1].t, ZGcd(a[1].z, a[2].z))))
    [] f = "fromle" -> One(V("u", ZFromDigits(Rev(a[1].x), 256)))
    [] f = "frombe" -> One(V("u", ZFromDigits(a[1].x, 256)))
    [] f = "tole" -> [o |-> "ok", r |-> <<VX("b", BytesLE(a[1].z))>>]
    [] f = "tobe" -> [o |-> "ok", r |-> <<VX("b", BytesBE(a[1].z))>>]
    [] f = "f32" -> One(V("f32", FloatBits(a[1].z, 24, 127)))
    [] f = "f64" -> One(V("f64", FloatBits(a[1].z, 53, 1023)))
    [] f \in {"parse_u", "parse_i"} -> Parse(f, a[1].x, 10)
    [] f \in {"prefix_u", "prefix_i"} -> Parse(f, a[1].x, 0)
    [] f \in {"radix_u", "radix_i", "num_u", "num_i"} ->
         (IF ~ValidRadix(a[2].z) THEN Panic ELSE Parse(f, a[1].x, N(a[2])))
    [] f = "lit" -> (LET p == LiteralValue(a[2].x, N(a[3]))
                     IN IF p.e = "ok" THEN One(V(a[1].x, p.z)) ELSE ErrO(p.e))
    [] f = "fmt" -> Format(a)
    [] f = "fmterr" -> One(VBool(Len(IntText(a[1].z, PlainRequest(a[2].x))) > N(a[3])))
    [] f = "ring" -> (IF a[1].z = Z0 THEN Panic ELSE One(V("g", ZInt(Len(rings)))))
    [] f = "modulus" -> One(V("u", Modulus(a[1].x)))
    [] f = "ringeq" -> One(VBool(a[1].x = a[2].x))
    [] f = "into" -> [o |-> "ok", r |-> <<VM(ZMod(a[2].z, Modulus(a[1].x)), a[1].x)>>]
    [] f = "residue" -> One(V("u", a[1].z))
    [] f = "meq" -> (IF a[1].g # a[2].g THEN Panic ELSE One(VBool(a[1].z = a[2].z)))
    [] f = "mpow" -> [o |-> "ok", r |-> <<VM(ZPowMod(a[1].z, a[2].z, Modulus(a[1].g)), a[1].g)>>]
    [] f = "nt_zero" -> One(V(IF a[1].z = Z0 THEN "u" ELSE "i", Z0))
    [] f = "nt_one" -> One(V(IF a[1].z = Z0 THEN "u" ELSE "i", Z1))
    [] f = "nt_iszero" -> One(VBool(a[1].z = Z0))
    [] f = "nt_isone" -> One(VBool(a[1].z = Z1))
    [] f = "nt_setzero" -> One(V(a[1].t, Z0))
    [] f = "nt_setone" -> One(V(a[1].t, Z1))
    [] f = "nt_pow" -> Power(a[1], a[2].z)
    [] f = "nt_abs" -> One(V("i", ZAbs(a[1].z)))
    [] f = "nt_abssub" -> One(V("i", IF ZLe(a[1].z, a[2].z) THEN Z0 ELSE ZSub(a[1].z, a[2].z)))
    [] f = "nt_signum" -> One(V("i", ZInt(ZSgn(a[1].z))))
    [] f = "nt_ispos" -> One(VBool(ZSgn(a[1].z) > 0))
    [] f = "nt_isneg" -> One(VBool(ZSgn(a[1].z) < 0))
    [] f = "ser" -> [o |-> "ok", r |-> <<VX("tok", Tokens(a[1]))>>]

(* ----------------------------------------------- calls with some choice -- *)
InRange(r, lo, hi, incl) == ZLe(lo, r) /\ (IF incl THEN ZLe(r, hi) ELSE ZLt(r, hi))
EmptyRange(lo, hi, incl) == IF incl THEN ZLt(hi, lo) ELSE ZLe(hi, lo)
RangeTooLong(lo, hi) == ZBitLen(ZAdd(ZSub(hi, lo), Z1)) > cfg.max

AtMost1(z, bound) == ZLe(ZAbs(z), IF bound = Z0 THEN Z1 ELSE ZAbs(bound))
Bezout(x, y, g, u, v) ==
  /\ g = ZGcd(x, y)
  /\ ZAdd(ZMul(x, u), ZMul(y, v)) = g
  /\ AtMost1(u, y) /\ AtMost1(v, x)

(* Heap bytes owned by a value: none if it fits in one word. *)
Footprint(v) ==
  LET n == Words(IF v.t = "m" THEN Modulus(v.g) ELSE v.z, cfg.wbits)
  IN IF n <= 1 THEN 0 ELSE (n + n \div 4 + 6) * (cfg.wbits \div 8)

(* Samples per bucket of a uniform distribution on r values, n samples, w    *)
(* values in the bucket: within 8 standard deviations (and a bit).           *)
Uniform(c, n, w, r) ==
  LET d == ZSub(ZMul(ZInt(c), r), ZMul(ZInt(n), w))
      var == ZMul(ZMul(ZInt(n), w), r)
  IN ZLe(ZMul(d, d), ZAdd(ZMul(ZInt(64), var), ZMul(ZInt(64), ZMul(r, r))))
BucketWidth(k, edges, r) ==
  ZSub(IF k > Len(edges) THEN r ELSE edges[k], IF k = 1 THEN Z0 ELSE edges[k - 1])

(* Deserialization: kind, words, announced length, sign form, malformation.  *)
DeGood(a) ==
  /\ N(a[5]) \in (IF N(a[1]) = 0 THEN {0, 5, 6, 7} ELSE {0})
  /\ N(a[1]) = 1 => N(a[4]) \in {0, 1, 3, 4}
RECURSIVE FromWords(_)
FromWords(w) == IF w = <<>> THEN Z0 ELSE ZAdd(ZShl(FromWords(Tail(w)), 64), ZHex(w[1]))
DeValue(a) ==
  IF N(a[1]) = 1 /\ N(a[4]) \in {1, 4} THEN ZNeg(FromWords(a[2].x)) ELSE FromWords(a[2].x)
DeHintRight(a) == a[3].z.neg \/ a[3].z = ZInt(Len(a[2].x))

RelOps == {"cmp", "egcd", "div-m", "inv", "mpows", "drop", "balance", "de", "sample", "hist", "bithist"}
(* Outcome o with results r (values). *)
Allowed(f, a, o, r) ==
  CASE f = "cmp" ->
         /\ o = "ok"
         /\ r[1] = V("ord", ZInt(ZCmp(a[1].z, a[2].z)))
         /\ r[2] = VBool(a[1].z = a[2].z)
         /\ r[3] \in {V("hasheq", Z0), V("hasheq", Z1)} /\ (a[1].z = a[2].z => r[3].z = Z1)
         /\ r[4] = VBool(TRUE) /\ Len(r) = 4
    [] f = "egcd" ->
         IF a[1].z = Z0 /\ a[2].z = Z0 THEN o = "panic"
         ELSE /\ o = "ok" /\ Len(r) = 3 /\ r[1].t = a[1].t /\ r[2].t = "i" /\ r[3].t = "i"
              /\ Bezout(a[1].z, a[2].z, r[1].z, r[2].z, r[3].z)
    [] f = "div-m" ->
         IF a[1].g # a[2].g \/ ~Unit(a[2].z, a[2].g) THEN o = "panic"
         ELSE /\ o = "ok" /\ Len(r) = 1 /\ r[1].t = "m" /\ r[1].g = a[1].g
              /\ InRange(r[1].z, Z0, Modulus(a[1].g), FALSE)
              /\ ZMod(ZMul(r[1].z, a[2].z), Modulus(a[1].g)) = a[1].z
    [] f = "inv" ->
         IF ~Unit(a[1].z, a[1].g) THEN o = "none"
         ELSE /\ o = "ok" /\ Len(r) = 1 /\ r[1].t = "m" /\ r[1].g = a[1].g
              /\ InRange(r[1].z, Z0, Modulus(a[1].g), FALSE)
              /\ ZMod(ZMul(r[1].z, a[1].z), Modulus(a[1].g)) = ZMod(Z1, Modulus(a[1].g))
    [] f = "mpows" ->
         IF a[2].z.neg /\ ~Unit(a[1].z, a[1].g) THEN o = "panic"
         ELSE /\ o = "ok" /\ Len(r) = 1 /\ r[1].t = "m" /\ r[1].g = a[1].g
              /\ InRange(r[1].z, Z0, Modulus(a[1].g), FALSE)
              /\ LET p == ZPowMod(a[1].z, ZAbs(a[2].z), Modulus(a[1].g))
                 IN IF a[2].z.neg THEN ZMod(ZMul(r[1].z, p), Modulus(a[1].g)) = ZMod(Z1, Modulus(a[1].g))
                    ELSE r[1].z = p
    [] f = "drop" -> o = "ok" /\ Len(r) = 1 /\ r[1].t = "usize" /\ ZLe(r[1].z, ZInt(Footprint(a[1])))
    [] f = "balance" -> o = "ok" /\ r = <<V("isize", Z0)>>
    [] f = "de" ->
         \/ /\ o = "ok" /\ DeGood(a)
            /\ r = <<V(IF N(a[1]) = 0 THEN "u" ELSE "i", DeValue(a))>>
            /\ Fits(r[1].t, r[1].z, cfg)
         \/ o = "err:de" /\ ~(DeGood(a) /\ DeHintRight(a) /\ ZBitLen(DeValue(a)) <= cfg.max)
         \/ o = "panic" /\ 64 * Len(a[2].x) > cfg.max
    [] f = "sample" ->
         LET incl == N(a[3]) = 1
         IN \/ o = "panic" /\ (EmptyRange(a[1].z, a[2].z, incl) \/ RangeTooLong(a[1].z, a[2].z))
            \/ /\ o = "ok" /\ Len(r) = 1 /\ r[1].t = a[1].t /\ InRange(r[1].z, a[1].z, a[2].z, incl)
    [] f = "hist" ->
         /\ o = "ok" /\ Len(r) = 1 /\ r[1].t = "hist"
         /\ LET range == ZSub(a[2].z, a[1].z)
                edges == [k \in 1..Len(a[5].x) |-> ZHex(a[5].x[k])]
            IN /\ Len(r[1].x) = Len(edges) + 1
               /\ \A k \in 1..Len(r[1].x) : Uniform(r[1].x[k], N(a[3]), BucketWidth(k, edges, range), range)

    \* One byte of the samples of a long range, or the sum of two: sixteen parts.
    [] f = "bithist" ->
         /\ o = "ok" /\ Len(r) = 1 /\ r[1].t = "hist" /\ Len(r[1].x) = 16
         /\ LET range == ZSub(a[2].z, a[1].z)
                high == 8 + (IF N(a[5]) < N(a[6]) THEN N(a[6]) ELSE N(a[5]))
            IN ZTz(range) >= high => \A k \in 1..16 : Uniform(r[1].x[k], N(a[3]), ZInt(16), ZInt(256))

(* ----------------------------------------------------------- the machine - *)
(* How a call touches the registers: consumed ("v") and overwritten ("w")    *)
(* operands become empty, also when the call panics; borrowed ones and all   *)
(* other registers keep their values; results go where the program put them. *)
RECURSIVE Emptied(_, _)
Emptied(bank, ops) ==
  IF ops = <<>> THEN bank
  ELSE IF ops[1][1] \in {"v", "w"} THEN Emptied([bank EXCEPT ![ops[1][2]] = Absent], Tail(ops))
  ELSE Emptied(bank, Tail(ops))
RECURSIVE Stored(_, _, _)
Stored(bank, dsts, r) ==
  IF dsts = <<>> THEN bank
  ELSE Stored(IF dsts[1] >= 0 THEN [bank EXCEPT ![dsts[1]] = r[1]] ELSE bank, Tail(dsts), Tail(r))

(* Call f with operand descriptors ops, outcome o, results r stored in dsts. *)
Call(f, ops, o, r, dsts) ==
  /\ regs' = Stored(Emptied(regs, ops), dsts, r)
  /\ rings' = IF f = "ring" /\ o = "ok" THEN Append(rings, regs[ops[1][2]].z) ELSE rings
  /\ UNCHANGED cfg

TypeOK ==
  /\ \A k \in DOMAIN regs :
       \/ regs[k] = Absent
       \/ regs[k].t \in {"u", "i"} /\ Fits(regs[k].t, regs[k].z, cfg)
       \/ regs[k].t = "m" /\ InRange(regs[k].z, Z0, Modulus(regs[k].g), FALSE)
  /\ \A k \in 1..Len(rings) : ZLt(Z0, rings[k])
=============================================================================
