------------------------------- MODULE MCIbig -------------------------------
(* The abstract machine itself, explored from the empty registers through    *)
(* every call (one family of operations at a time) on every reachable pair   *)
(* of values, under a size limit of a few bits.  The properties are stated   *)
(* here once more, independently of the definitions the machine uses: as     *)
(* laws between operands and outcome, on TLC's own integers.                 *)
EXTENDS Ibig, TLC
CONSTANTS MaxBits,   \* the size limit
          Family     \* which operations
VARIABLE last
all == <<vars, last>>

NRegs == 2
Nothing == [f |-> "none"]
Top == 2 ^ MaxBits
Nat1 == 0..(Top - 1)
Int1 == (1 - Top)..(Top - 1)
Num(v) == ZToInt(v.z)
Lit(t, n) == <<"lit", V(t, ZInt(n))>>
LitX(t, x) == <<"lit", VX(t, x)>>
Value(d) == IF d[1] = "lit" THEN d[2] ELSE regs[d[2]]
Present(d) == IF d[1] = "lit" THEN TRUE ELSE regs[d[2]] # Absent

(* ------------------------------------------------------------- the calls - *)
Forms2 == {<<x, y>> : x \in {"v", "r", "w"}, y \in {"v", "r"}}
HasAssign(f) == f \in {"add", "sub", "mul", "div", "rem", "and", "or", "xor"}
TwoResults(f) == f \in {"divrem", "divreme"}
BinaryCalls(fs) ==
  {[f |-> f, ops |-> <<<<m[1], k>>, <<m[2], 1 - k>>>>] :
     f \in fs, m \in Forms2, k \in 0..1}
  \cup {[f |-> f, ops |-> <<<<"r", k>>, <<"r", k>>>>] : f \in fs, k \in 0..1}
Legal2(c) == c.ops[1][1] = "w" => HasAssign(c.f)
UnaryCalls(fs, forms) == {[f |-> f, ops |-> <<<<m, k>>>>] : f \in fs, m \in forms, k \in 0..1}
CountCalls(fs, forms, t, counts) ==
  {[f |-> f, ops |-> <<<<m, k>>, Lit(t, n)>>] : f \in fs, m \in forms, k \in 0..1, n \in counts}
FarCalls(fs, forms) ==
  {[f |-> f, ops |-> <<<<m, k>>, <<"lit", V("usize", ZSub(ZTwo(64), ZInt(d)))>>>>] : f \in fs, m \in forms, k \in 0..1, d \in {1, 2}}

Arithmetic == {"add", "sub", "mul", "div", "rem", "divrem", "dive", "reme", "divreme"}
Logic == {"and", "or", "xor", "andnot"}
Counts == 0..(MaxBits + 2)
(* Values loaded when they are not all loaded. *)
Boundaries == {0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1022, 1023}
PrimValues(t) == IF t = "u8" THEN {0, 1, 2, 127, 128, 254, 255}
                 ELSE IF t = "i8" THEN {0 - 128, 0 - 127, 0 - 2, 0 - 1, 0, 1, 2, 126, 127}
                 ELSE IF t \in UnsignedPrims THEN {0, 1, 255, 1023, 1024, 65535} ELSE {0 - 32768, 0 - 1024, 0 - 1, 0, 1, 255, 1023, 32767}
PrimLit(t, n) == <<"lit", V(t, ZInt(n))>>

(* Texts over a small alphabet: digits, a letter of radix 16, a prefix       *)
(* letter, signs, something else.                                            *)
Alphabet == {43, 45, 48, 49, 97, 66, 98, 120, 95}
Texts == UNION {[1..n -> Alphabet] : n \in 0..3} \cup {<<x, 48>> \o s : x \in {43, 45}, s \in [1..2 -> Alphabet]}

Loads ==
  CASE Family \in {"arithmetic", "logic", "shift", "sign", "compare", "clone", "gcd", "bytes", "float", "format"} ->
         {[f |-> "load", ops |-> <<Lit("u", n)>>] : n \in Nat1} \cup {[f |-> "load", ops |-> <<Lit("i", n)>>] : n \in Int1}
    [] Family = "bits" -> {[f |-> "load", ops |-> <<Lit("u", n)>>] : n \in Nat1}
    [] Family \in {"convert", "primitive", "serial"} ->
         {[f |-> "load", ops |-> <<Lit("u", n)>>] : n \in Boundaries}
         \cup {[f |-> "load", ops |-> <<Lit("i", n)>>] : n \in Boundaries \cup {0 - x : x \in Boundaries}}
    [] Family = "ring" ->
         {[f |-> "into", ops |-> <<<<"lit", VX("g", g)>>, Lit("i", n)>>] : g \in 0..(Len(rings) - 1), n \in Int1}
    [] OTHER -> {}
Asked ==
  CASE Family = "arithmetic" -> {c \in BinaryCalls(Arithmetic) : Legal2(c)}
    [] Family = "logic" -> {c \in BinaryCalls(Logic) : Legal2(c)} \cup UnaryCalls({"not"}, {"v", "r"})
    [] Family = "shift" -> CountCalls({"shl", "shr"}, {"v", "r", "w"}, "usize", Counts) \cup FarCalls({"shl", "shr"}, {"v", "r", "w"})
                           \cup CountCalls({"pow", "nt_pow"}, {"r"}, "usize", Counts) \cup FarCalls({"pow"}, {"r"})
    [] Family = "bits" -> CountCalls({"bit"}, {"r"}, "usize", Counts) \cup FarCalls({"bit"}, {"r"})
                          \cup CountCalls({"setbit", "clearbit"}, {"w"}, "usize", Counts) \cup FarCalls({"setbit", "clearbit"}, {"w"})
                          \cup UnaryCalls({"bitlen", "tz", "ispow2"}, {"r"}) \cup UnaryCalls({"nextpow2"}, {"v", "r"})
    [] Family = "sign" -> UnaryCalls({"neg", "abs", "uabs", "signum", "nt_abs", "nt_signum", "nt_ispos", "nt_isneg", "nt_iszero", "nt_isone"}, {"r"})
                          \cup UnaryCalls({"neg"}, {"v"}) \cup UnaryCalls({"nt_setzero", "nt_setone"}, {"w"})
                          \cup {[f |-> "nt_abssub", ops |-> <<<<"r", k>>, <<"r", 1 - k>>>>] : k \in 0..1}
    [] Family = "compare" -> {[f |-> "cmp", ops |-> <<<<"r", k>>, <<"r", j>>>>] : k, j \in 0..1}
    [] Family = "clone" -> UnaryCalls({"clone", "drop"}, {"r"}) \cup UnaryCalls({"drop"}, {"v"})
                           \cup {[f |-> "clonefrom", ops |-> <<<<"w", k>>, <<"r", 1 - k>>>>] : k \in 0..1}
    [] Family = "gcd" -> {[f |-> "gcd", ops |-> <<<<"r", k>>, <<"r", j>>>>] : k, j \in 0..1}
                         \cup {[f |-> "egcd", ops |-> <<<<"r", k>>, <<"r", j>>>>] : k, j \in 0..1}
    [] Family = "bytes" -> UnaryCalls({"tole", "tobe"}, {"r"})
    [] Family = "float" -> {}
    [] Family = "format" -> {}
    [] Family = "convert" -> UnaryCalls(ConvOps \cup {"i2u"}, {"r"})
                             \cup {[f |-> f, ops |-> <<PrimLit(t, n)>>] : f \in {"fromu", "fromi"}, t \in {"u8", "u16"}, n \in PrimValues("u8")}
                             \cup {[f |-> f, ops |-> <<PrimLit(t, n)>>] : f \in {"fromu", "fromi"}, t \in {"i8", "i16"}, n \in PrimValues("i8")}
    [] Family = "primitive" ->
         {[f |-> f, ops |-> <<<<m, 0>>, PrimLit(t, n)>>] :
             f \in Arithmetic \cup {"and", "or", "xor"}, m \in {"r", "w"}, t \in {"u8"}, n \in PrimValues("u8")}
         \cup {[f |-> f, ops |-> <<<<m, 0>>, PrimLit(t, n)>>] :
             f \in Arithmetic \cup {"and", "or", "xor"}, m \in {"r", "w"}, t \in {"i8"}, n \in PrimValues("i8")}
         \cup {[f |-> f, ops |-> <<PrimLit(t, n), <<"r", 0>>>>] :
             f \in {"add", "sub", "mul", "and", "or", "xor"}, t \in {"u8"}, n \in PrimValues("u8")}
         \cup {[f |-> f, ops |-> <<PrimLit(t, n), <<"r", 0>>>>] :
             f \in {"add", "sub", "mul", "and", "or", "xor"}, t \in {"i8"}, n \in PrimValues("i8")}
    [] Family = "serial" -> UnaryCalls({"ser"}, {"r"})
    [] Family = "parse" -> {[f |-> f, ops |-> <<LitX("s", s)>>] : f \in {"parse_u", "parse_i", "prefix_u", "prefix_i"}, s \in Texts}
                           \cup {[f |-> f, ops |-> <<LitX("s", s), Lit("u32", n)>>] : f \in {"radix_u", "radix_i"}, s \in Texts, n \in {2, 16}}
                           \cup {[f |-> f, ops |-> <<LitX("s", s), Lit("u32", n)>>] : f \in {"radix_u", "num_i"}, s \in {<<>>, <<49>>}, n \in {0, 1, 36, 37}}
    [] Family = "literal" -> {[f |-> "lit", ops |-> <<LitX("c", "i"), LitX("s", s), Lit("u32", n)>>] : s \in Texts, n \in {0, 2, 16}}
    [] Family = "ring" ->
         {[f |-> f, ops |-> <<<<m, k>>, <<"r", j>>>>] : f \in {"add", "sub", "mul", "div-m", "meq"}, m \in {"r"}, k, j \in 0..1}
         \cup UnaryCalls({"neg", "inv", "residue"}, {"r"})
         \cup {[f |-> "mpow", ops |-> <<<<"r", k>>, Lit("u", n)>>] : k \in 0..1, n \in 0..5}
         \cup {[f |-> "mpows", ops |-> <<<<"r", k>>, Lit("i", n)>>] : k \in 0..1, n \in {0 - 2, 0 - 1, 0, 1, 3}}
         \cup {[f |-> "clonefrom", ops |-> <<<<"w", k>>, <<"r", 1 - k>>>>] : k \in 0..1}
    [] Family = "sample" -> {[f |-> "sample", ops |-> <<Lit(t, lo), Lit(t, hi), Lit("bool", incl)>>] :
                                t \in {"u", "i"}, lo, hi \in Int1, incl \in {0, 1}}
    [] OTHER -> {}

(* Results a relational call may be tried with. *)
Elements == {VM(ZInt(n), g) : n \in Nat1, g \in 0..(Len(rings) - 1)}
Guesses(f, a) ==
  CASE f = "cmp" -> {<<V("ord", ZInt(c)), VBool(b), V("hasheq", ZInt(h)), VBool(TRUE)>> : c \in {0 - 1, 0, 1}, b \in BOOLEAN, h \in {0, 1}}
    [] f = "egcd" -> {<<V(a[1].t, ZInt(g)), V("i", ZInt(x)), V("i", ZInt(y))>> : g \in Nat1, x, y \in Int1}
    [] f \in {"div-m", "inv", "mpows"} -> {<<e>> : e \in Elements}
    [] f = "drop" -> {<<V("usize", ZInt(n))>> : n \in {0, 1, 10}}
    [] f = "sample" -> {<<V(a[1].t, ZInt(n))>> : n \in Int1}
    [] OTHER -> {}
Refusals == {"panic", "none", "err:de", "err:bounds", "err:invalid", "err:nodigits"}

LoadDst == CASE Family \in {"parse", "literal", "sample"} -> {}
             [] Family \in {"bytes", "float", "format", "convert", "primitive", "serial", "shift", "bits"} -> {0}
             [] OTHER -> 0..1
(* Where results go: the registers in order, the other order, nowhere. *)
Destinations(c, n) ==
  IF n = 0 THEN {<<>>}
  ELSE IF c.ops[1][1] = "w" THEN {<<c.ops[1][2]>>}
  ELSE IF c.f \in {"drop", "ser", "residue"} \/ Family \in {"primitive", "convert", "parse", "literal", "sample"} THEN {[k \in 1..n |-> 0 - 1]}
  ELSE IF n = 2 THEN {<<0, 1>>, <<1, 0>>}
  ELSE IF n = 3 THEN {<<0, 0 - 1, 1>>}
  ELSE {<<k>> : k \in LoadDst}
Holds(v) == v.t \in {"u", "i", "m"}
Keep(dsts, r) == [k \in 1..Len(r) |-> IF Holds(r[k]) THEN dsts[k] ELSE 0 - 1]

Took(c, a, assign, o, r, dsts) ==
  /\ Call(c.f, c.ops, o, r, dsts)
  /\ last' = [f |-> c.f, ops |-> c.ops, a |-> a, assign |-> assign, o |-> o, r |-> r, dsts |-> dsts, before |-> regs]
WellTyped(c, a) ==
  /\ (Len(a) = 2 /\ Family \in {"arithmetic", "logic", "gcd", "compare", "clone"}) => a[1].t = a[2].t
  /\ c.f \in {"neg", "not"} => a[1].t # "u"
  /\ c.f \in {"i2u", "abs", "uabs", "signum", "nt_abs", "nt_signum", "nt_ispos", "nt_isneg", "nt_abssub"} => a[1].t = "i"
  /\ c.f = "nt_abssub" => a[2].t = "i"
  /\ c.f \in {"tole", "tobe"} => a[1].t = "u"
  /\ c.f = "drop" => a[1].t \in {"u", "i"}
(* Which primitives an operator takes on which side. *)
HasMixed(c, a) ==
  Family = "primitive" =>
    (c.f \in {"divrem", "dive", "reme", "divreme"} => c.ops[1][1] = "r")
Do(c) ==
  /\ last = Nothing
  /\ \A k \in 1..Len(c.ops) : Present(c.ops[k])
  /\ LET a == [k \in 1..Len(c.ops) |-> Value(c.ops[k])]
         assign == c.ops[1][1] = "w"
     IN /\ WellTyped(c, a) /\ HasMixed(c, a)
        /\ IF c.f \in RelOps
           THEN \/ \E r \in Guesses(c.f, a) :
                     /\ Allowed(c.f, a, "ok", r)
                     /\ \E d \in Destinations(c, Len(r)) : Took(c, a, assign, "ok", r, Keep(d, r))
                \/ \E o \in Refusals : Allowed(c.f, a, o, <<>>) /\ Took(c, a, assign, o, <<>>, <<>>)
           ELSE LET e == Expect(c.f, a, assign)
                IN \E d \in Destinations(c, Len(e.r)) : Took(c, a, assign, e.o, e.r, Keep(d, e.r))
DoLoad(c, k) ==
  /\ last = Nothing /\ regs[k] = Absent
  /\ LET a == [j \in 1..Len(c.ops) |-> Value(c.ops[j])]
         e == Expect(c.f, a, FALSE)
     IN e.o = "ok" /\ Took(c, a, FALSE, e.o, e.r, <<k>>)
(* One call from each loaded value, where calls would reach far too many.    *)
Settle == /\ last # Nothing /\ last' = Nothing /\ UNCHANGED vars
          /\ Family \in {"primitive"} => last.f = "load"

Moduli == IF Family = "ring" THEN <<ZInt(1), ZInt(4), ZInt(6), ZInt(6), ZInt(7)>> ELSE <<>>
Init ==
  /\ cfg = MkCfg(4, 64, ZInt(MaxBits))
  /\ regs = [k \in 0..(NRegs - 1) |-> Absent]
  /\ rings = Moduli
  /\ last = Nothing
Next ==
  \/ \E c \in Loads : \E k \in LoadDst : DoLoad(c, k)
  \/ \E c \in Asked : Do(c)
  \/ Settle
Spec == Init /\ [][Next]_all

(* --------------------------------------------------------------- the laws  *)
A == last.a
R == last.r
Ok == last.o = "ok"
Now(fs) == last.f \in fs
InType(t, n) == CASE t = "u" -> n \in Nat1 [] t = "i" -> n \in Int1
                  [] t = "u8" -> n \in 0..255 [] t = "i8" -> n \in (0 - 128)..127 [] OTHER -> TRUE
Abs(n) == IF n < 0 THEN 0 - n ELSE n
(* Exactly n in type t, or a panic because it is not a value of that type. *)
Gives(t, n) == IF InType(t, n) THEN Ok /\ Len(R) = 1 /\ R[1] = V(t, ZInt(n)) ELSE last.o = "panic" /\ R = <<>>
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN 1 ELSE x * Times(x, n - 1)
BitOf(x, n) == (x \div (2 ^ n)) % 2 = 1
Places == 0..(MaxBits + 2)
Big(v) == ZBitLen(v.z) > 30

C01 == (Now({"add", "sub"}) /\ A[1].t \in {"u", "i"} /\ Family = "arithmetic") =>
  Gives(A[1].t, IF last.f = "add" THEN Num(A[1]) + Num(A[2]) ELSE Num(A[1]) - Num(A[2]))
C02 == (Now({"mul"}) /\ Family = "arithmetic") => Gives(A[1].t, Num(A[1]) * Num(A[2]))
Truncated(x, y, q, r) == x = q * y + r /\ Abs(r) < Abs(y) /\ (r = 0 \/ (r < 0) = (x < 0))
Euclidean(x, y, q, r) == x = q * y + r /\ r >= 0 /\ r < Abs(y)
C03 == (Now(DivisionOps) /\ Family = "arithmetic") =>
  IF Num(A[2]) = 0 THEN last.o = "panic"
  ELSE /\ Ok
       /\ \A k \in 1..Len(R) : R[k].t = A[1].t /\ InType(R[k].t, Num(R[k]))
       /\ LET x == Num(A[1])
              y == Num(A[2])
          IN CASE last.f = "div" -> \E r \in Int1 : Truncated(x, y, Num(R[1]), r)
               [] last.f = "rem" -> \E q \in Int1 : Truncated(x, y, q, Num(R[1]))
               [] last.f = "divrem" -> Truncated(x, y, Num(R[1]), Num(R[2]))
               [] last.f = "dive" -> \E r \in Int1 : Euclidean(x, y, Num(R[1]), r)
               [] last.f = "reme" -> \E q \in Int1 : Euclidean(x, y, q, Num(R[1]))
               [] last.f = "divreme" -> Euclidean(x, y, Num(R[1]), Num(R[2]))
C04 == Now({"pow", "nt_pow"}) =>
  LET x == Num(A[1])
  IN IF Big(A[2]) THEN (IF x \in {0, 1} THEN Ok /\ Num(R[1]) = x
                        ELSE IF x = 0 - 1 THEN Ok /\ Num(R[1]) = (IF ZOdd(A[2].z) THEN 0 - 1 ELSE 1)
                        ELSE last.o = "panic")
     ELSE Gives(A[1].t, Times(x, Num(A[2])))
C05 == Now({"shl", "shr"}) =>
  LET x == Num(A[1])
  IN IF Big(A[2]) THEN (IF last.f = "shr" THEN Ok /\ Num(R[1]) = (IF x < 0 THEN 0 - 1 ELSE 0)
                        ELSE IF x = 0 THEN Ok /\ Num(R[1]) = 0 ELSE last.o = "panic")
     ELSE IF last.f = "shl" THEN Gives(A[1].t, x * (2 ^ Num(A[2])))
     ELSE /\ Ok /\ R[1].t = A[1].t
          /\ Num(R[1]) * (2 ^ Num(A[2])) <= x /\ x < (Num(R[1]) + 1) * (2 ^ Num(A[2]))
C06 == /\ Now(Logic) /\ Family = "logic" =>
          \/ /\ Ok /\ R[1].t = A[1].t
             /\ \A n \in Places :
                  BitOf(Num(R[1]), n) =
                    (CASE last.f = "and" -> BitOf(Num(A[1]), n) /\ BitOf(Num(A[2]), n)
                       [] last.f = "or" -> BitOf(Num(A[1]), n) \/ BitOf(Num(A[2]), n)
                       [] last.f = "xor" -> BitOf(Num(A[1]), n) # BitOf(Num(A[2]), n)
                       [] last.f = "andnot" -> BitOf(Num(A[1]), n) /\ ~BitOf(Num(A[2]), n))
          \* -2^MaxBits is the only result that is too long.
          \/ /\ last.o = "panic"
             /\ A[1].t = "i" /\ last.f \in {"and", "andnot", "xor"}
             /\ \A n \in 0..(MaxBits - 1) :
                  ~(CASE last.f = "and" -> BitOf(Num(A[1]), n) /\ BitOf(Num(A[2]), n)
                      [] last.f = "xor" -> BitOf(Num(A[1]), n) # BitOf(Num(A[2]), n)
                      [] last.f = "andnot" -> BitOf(Num(A[1]), n) /\ ~BitOf(Num(A[2]), n))
       /\ Now({"not"}) => (IF Num(A[1]) = Top - 1 THEN last.o = "panic"
                           ELSE Ok /\ \A n \in Places : BitOf(Num(R[1]), n) # BitOf(Num(A[1]), n))
C07 ==
  /\ Now({"bit"}) => Ok /\ (R[1] = VBool(~Big(A[2]) /\ BitOf(Num(A[1]), Num(A[2]))))
  /\ Now({"setbit", "clearbit"}) =>
       (\/ last.o = "panic" /\ last.f = "setbit" /\ (Big(A[2]) \/ Num(A[2]) >= MaxBits)
        \/ /\ Ok
           /\ \A n \in Places :
                BitOf(Num(R[1]), n) = (IF A[2].z = ZInt(n) THEN last.f = "setbit" ELSE BitOf(Num(A[1]), n)))
  /\ Now({"bitlen"}) => Ok /\ Num(A[1]) < 2 ^ Num(R[1]) /\ (Num(R[1]) = 0 \/ Num(A[1]) >= 2 ^ (Num(R[1]) - 1))
  /\ Now({"tz"}) => (IF Num(A[1]) = 0 THEN last.o = "none"
                     ELSE Ok /\ BitOf(Num(A[1]), Num(R[1])) /\ \A n \in 0..(Num(R[1]) - 1) : ~BitOf(Num(A[1]), n))
  /\ Now({"ispow2"}) => Ok /\ (R[1] = VBool(\E n \in Places : Num(A[1]) = 2 ^ n))
  /\ Now({"nextpow2"}) =>
       LET p == 2 ^ (CHOOSE n \in Places : 2 ^ n >= Num(A[1]) /\ \A m \in 0..(n - 1) : 2 ^ m < Num(A[1]))
       IN Gives("u", p)
C08 == Now({"cmp"}) =>
  /\ Ok
  /\ Num(R[1]) = (IF Num(A[1]) < Num(A[2]) THEN 0 - 1 ELSE IF Num(A[1]) = Num(A[2]) THEN 0 ELSE 1)
  /\ (R[2] = VBool(TRUE)) = (Num(A[1]) = Num(A[2]))
  /\ Num(A[1]) = Num(A[2]) => Num(R[3]) = 1
C09 ==
  /\ Now({"neg"}) /\ Family = "sign" => Ok /\ R[1] = V("i", ZInt(0 - Num(A[1])))
  /\ Now({"abs", "nt_abs"}) => Ok /\ R[1] = V("i", ZInt(Abs(Num(A[1]))))
  /\ Now({"uabs"}) => Ok /\ R[1] = V("u", ZInt(Abs(Num(A[1]))))
  /\ Now({"signum", "nt_signum"}) => Ok /\ Num(R[1]) * Abs(Num(A[1])) = Num(A[1]) /\ Abs(Num(R[1])) <= 1
                                     /\ (Num(A[1]) = 0 => Num(R[1]) = 0)
  /\ Now({"nt_ispos"}) => R[1] = VBool(Num(A[1]) > 0)
  /\ Now({"nt_isneg"}) => R[1] = VBool(Num(A[1]) < 0)
  /\ Now({"nt_iszero"}) => R[1] = VBool(Num(A[1]) = 0)
  /\ Now({"nt_isone"}) => R[1] = VBool(Num(A[1]) = 1)
  /\ Now({"nt_setzero"}) => Ok /\ R[1] = V(A[1].t, Z0)
  /\ Now({"nt_setone"}) => Ok /\ R[1] = V(A[1].t, Z1)
  /\ Now({"nt_abssub"}) => LET d == Num(A[1]) - Num(A[2]) IN Gives("i", IF d <= 0 THEN 0 ELSE d)
  \* One zero: no register holds a negative zero.
  /\ \A k \in DOMAIN regs : (regs[k] # Absent /\ regs[k].t # "m" /\ Num(regs[k]) = 0) => ~regs[k].z.neg

(* A text denotes n in a radix iff it is the shortest numeral of |n|, in     *)
(* either case, after a sign (not needed for n >= 0) and any zeros.          *)
Lower(s) == [k \in 1..Len(s) |-> IF s[k] >= 65 /\ s[k] <= 90 THEN s[k] + 32 ELSE s[k]]
RECURSIVE Shortest(_, _)
Shortest(n, radix) ==
  LET d == n % radix
      c == <<IF d < 10 THEN 48 + d ELSE 87 + d>>
  IN IF n < radix THEN c ELSE Shortest(n \div radix, radix) \o c
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Denotes(t, s, radix, n) ==
  \E sign \in {<<>>, <<43>>, <<45>>} : \E cut \in {0, 2} :
    LET k == Len(sign)
        d == SubSeq(s, k + cut + 1, Len(s))
        letter == IF Len(s) >= k + 2 THEN s[k + 2] ELSE 0
        rdx == IF radix # 0 THEN radix ELSE IF cut = 0 THEN 10 ELSE CASE letter = 98 -> 2 [] letter = 111 -> 8 [] OTHER -> 16
    IN /\ Len(s) > k + cut /\ SubSeq(s, 1, k) = sign
       /\ cut = 2 => radix = 0 /\ s[k + 1] = 48 /\ letter \in {98, 111, 120}
       /\ (radix = 0 /\ cut = 0) => ~(Len(s) >= k + 2 /\ s[k + 1] = 48 /\ letter \in {98, 111, 120})
       /\ sign = <<45>> => t = "i" /\ n <= 0
       /\ sign # <<45>> => n >= 0
       /\ NoZeros(Lower(d)) = Shortest(Abs(n), rdx)
Largest == 16 ^ 4
C10 == Now(ParseOps) =>
  LET t == ParseType(last.f)
      radix == IF Len(A) = 2 THEN Num(A[2]) ELSE IF last.f \in {"prefix_u", "prefix_i"} THEN 0 ELSE 10
  IN IF Len(A) = 2 /\ radix \notin 2..36 THEN last.o = "panic"
     ELSE IF Ok THEN R[1].t = t /\ Denotes(t, A[1].x, radix, Num(R[1])) /\ (Num(R[1]) = 0 => ~R[1].z.neg)
     ELSE /\ last.o \in {"err:nodigits", "err:invalid"}
          /\ \A n \in {0 - 17, 0 - 16, 0 - 11, 0 - 10, 0 - 3, 0 - 2, 0 - 1, 0, 1, 2, 3, 4, 5, 10, 11, 16, 17, 100, 101, 111} : ~Denotes(t, A[1].x, radix, n)
          /\ last.o = "err:nodigits" =>
               A[1].x \in {<<>>, <<43>>} \cup (IF t = "i" THEN {<<45>>} ELSE {})
                            \cup {s \o <<48, c>> : s \in {<<>>, <<43>>, <<45>>}, c \in {98, 111, 120}}

(* Literals: underscores anywhere, no plus sign.                             *)
C12 == Now({"lit"}) =>
  LET s == DropUnderscores(A[2].x)
      signs == \E k \in 1..Len(A[2].x) : A[2].x[k] = 43 \/ (k > 1 /\ A[2].x[k] = 45)
  IN IF Ok THEN R[1].t = "i" /\ Denotes("i", s, Num(A[3]), Num(R[1])) /\ ~signs
     ELSE /\ last.o \in {"err:nodigits", "err:invalid"}
          /\ signs \/ \A n \in {0 - 11, 0 - 2, 0 - 1, 0, 1, 2, 3, 10, 11, 16, 17, 100} : ~Denotes("i", s, Num(A[3]), n)

Requests == [kind : {"d", "D", "b", "o", "x", "X", "r"}, radix : {2, 3, 16, 36}, flags : 0..7, width : {0, 1, 4, 7}, fill : {0, 42}, align : 0..3]
Strip(s, c) == IF s # <<>> /\ s[1] = c THEN Tail(s) ELSE s
C11 == (Family = "format" /\ Now({"load"})) =>
  LET z == R[1].z
      n == Num(R[1])
  IN \A q \in Requests :
       LET s == IntText(z, q)
           radix == KindRadix(q)
           body == NoZeros(Shortest(Abs(n), radix))
           bare == [q EXCEPT !.width = 0]
           core == IntText(z, bare)
           unsigned == Strip(Strip(core, 45), 43)
           alt == HasFlag(q, 2) /\ q.kind \in {"b", "o", "x", "X"}
       IN /\ Len(s) = (IF Len(core) >= q.width THEN Len(core) ELSE q.width)
          /\ (core[1] = 45) = (n < 0)
          /\ (core[1] = 43) = (n >= 0 /\ HasFlag(q, 1))
          /\ alt => SubSeq(unsigned, 1, 2) = <<48, CASE q.kind = "b" -> 98 [] q.kind = "o" -> 111 [] OTHER -> 120>>
          /\ LET d == IF alt THEN SubSeq(unsigned, 3, Len(unsigned)) ELSE unsigned
             IN /\ Lower(d) = body
                /\ \A k \in 1..Len(d) : d[k] >= 97 => ~(q.kind = "X" \/ (q.kind = "r" /\ HasFlag(q, 2)))
                /\ \A k \in 1..Len(d) : (d[k] >= 65 /\ d[k] <= 90) => (q.kind = "X" \/ (q.kind = "r" /\ HasFlag(q, 2)))
                /\ \* padding: fill characters around, or zeros before the digits
                   IF HasFlag(q, 4) THEN Len(s) > Len(core) => SubSeq(s, Len(s) - Len(d) + 1, Len(s)) = d
                   ELSE \E l \in 0..(Len(s) - Len(core)) :
                          /\ SubSeq(s, l + 1, l + Len(core)) = core
                          /\ \A k \in 1..Len(s) : k \notin (l + 1)..(l + Len(core)) => s[k] = (IF q.fill = 0 THEN 32 ELSE 42)
                          /\ l = (CASE q.align = 1 -> 0 [] q.align = 2 -> (Len(s) - Len(core)) \div 2 [] OTHER -> Len(s) - Len(core))
          \* and back
          /\ (q.width = 0 /\ ~alt /\ (q.kind # "r" \/ radix = q.radix)) =>
               ParseText("i", s, radix) = [e |-> "ok", z |-> z]
          /\ (q.width = 0 /\ alt) => ParseText("i", IF q.kind = "X" THEN s ELSE s, 0) = [e |-> "ok", z |-> z]

RECURSIVE Sum256(_)
Sum256(s) == IF s = <<>> THEN 0 ELSE s[1] + 256 * Sum256(Tail(s))
C13 == Now({"tole", "tobe"}) =>
  LET s == IF last.f = "tole" THEN R[1].x ELSE Rev(R[1].x)
      zero == <<0>>
  IN /\ Sum256(s) = Num(A[1]) /\ (s # <<>> => s[Len(s)] # 0)
     /\ \A pad \in {<<>>, <<0>>, <<0, 0>>} :
          /\ Expect("fromle", <<VX("b", s \o pad)>>, FALSE) = [o |-> "ok", r |-> <<A[1]>>]
          /\ Expect("frombe", <<VX("b", pad \o Rev(s))>>, FALSE) = [o |-> "ok", r |-> <<A[1]>>]

Low(t) == CASE t = "u8" -> 0 [] t = "i8" -> 0 - 128 [] t = "u16" -> 0 [] t = "i16" -> 0 - 32768
            [] t \in UnsignedPrims \cup {"u"} -> 0 [] OTHER -> 0 - 1000000
High(t) == CASE t = "u8" -> 255 [] t = "i8" -> 127 [] t = "u" -> Top - 1 [] t = "i" -> Top - 1 [] OTHER -> 32767
C14 == Now(ConvOps \cup {"i2u", "fromu", "fromi"}) =>
  LET t == CASE last.f \in ConvOps -> ConvTarget[last.f] [] last.f = "fromi" -> "i" [] OTHER -> "u"
      n == Num(A[1])
  IN IF n >= Low(t) /\ n <= High(t) THEN Ok /\ R = <<V(t, ZInt(n))>>
     ELSE last.o = "err:bounds" /\ R = <<>>

(* A format with 3 bits of significand and 3 of exponent (largest 2^3):      *)
(* 1 ... 14 as far as integers are concerned, against the definition of      *)
(* nearest.  The bits decode as usual.                                       *)
FP == 3
FE == 3
FloatValue(b) ==
  LET m == b % 32  \* without the sign
      e == m \div 4
      v == (IF e = 0 THEN m % 4 ELSE (4 + (m % 4)) * (2 ^ (e - 1)))
  IN IF b >= 32 THEN 0 - v ELSE v  \* in units of 2^-4
Finite == {b \in 0..63 : (b % 32) \div 4 # 7}
C15 == (Family = "float" /\ Now({"load"})) =>
  LET n == Num(R[1])
      b == ZToInt(FloatBits(R[1].z, FP, FE))
      dist(c) == Abs(FloatValue(c) - n * 16)
  IN /\ (n < 0) = (b >= 32)
     /\ IF b % 32 = 28
        THEN Abs(n) >= 15  \* half way from the largest, 14, to 16
        ELSE /\ b \in Finite
             /\ \A c \in Finite : dist(b) <= dist(c)
             /\ \A c \in Finite : (dist(b) = dist(c) /\ FloatValue(b) # FloatValue(c)) => b % 2 = 0
             /\ Abs(n) < 15

Divides(d, n) == IF d = 0 THEN n = 0 ELSE n % d = 0
C16 ==
  /\ Now({"gcd"}) =>
       LET x == Num(A[1])
           y == Num(A[2])
       IN IF x = 0 /\ y = 0 THEN last.o = "panic"
          ELSE /\ Ok /\ Num(R[1]) > 0 /\ R[1].t = A[1].t
               /\ Divides(Num(R[1]), Abs(x)) /\ Divides(Num(R[1]), Abs(y))
               /\ \A d \in 1..Top : (Divides(d, Abs(x)) /\ Divides(d, Abs(y))) => Divides(d, Num(R[1]))
  /\ Now({"egcd"}) =>
       LET x == Num(A[1])
           y == Num(A[2])
       IN IF x = 0 /\ y = 0 THEN last.o = "panic"
          ELSE /\ Ok
               /\ Num(R[1]) = x * Num(R[2]) + y * Num(R[3])
               /\ Num(R[1]) > 0 /\ Divides(Num(R[1]), Abs(x)) /\ Divides(Num(R[1]), Abs(y))
               /\ Abs(Num(R[2])) <= (IF y = 0 THEN 1 ELSE Abs(y))
               /\ Abs(Num(R[3])) <= (IF x = 0 THEN 1 ELSE Abs(x))
  \* Coefficients exist whenever there is a gcd.
  /\ (Family = "gcd" /\ last = Nothing /\ regs[0] # Absent /\ regs[1] # Absent) =>
       LET a == <<regs[0], regs[1]>>
       IN (regs[0].t = regs[1].t /\ ~(Num(regs[0]) = 0 /\ Num(regs[1]) = 0)) =>
            \E r \in Guesses("egcd", a) : Allowed("egcd", a, "ok", r)

M(v) == ZToInt(Modulus(v.g))
C17 ==
  /\ (Family = "ring" /\ Now({"into"})) =>
       Ok /\ R[1].t = "m" /\ Num(R[1]) \in 0..(M(R[1]) - 1) /\ (Num(A[2]) - Num(R[1])) % M(R[1]) = 0
  /\ (Family = "ring" /\ Now({"add", "sub", "mul"}) /\ Ok) =>
       /\ Num(R[1]) \in 0..(M(R[1]) - 1) /\ R[1].g = A[1].g
       /\ (Num(R[1]) - (CASE last.f = "add" -> Num(A[1]) + Num(A[2])
                          [] last.f = "sub" -> Num(A[1]) - Num(A[2])
                          [] last.f = "mul" -> Num(A[1]) * Num(A[2]))) % M(R[1]) = 0
  /\ (Family = "ring" /\ Now({"neg"})) => Ok /\ (Num(R[1]) + Num(A[1])) % M(R[1]) = 0 /\ Num(R[1]) \in 0..(M(R[1]) - 1)
  /\ Now({"residue"}) => Ok /\ R[1] = V("u", A[1].z)
HasInverse(v) == \E u \in 0..(M(v) - 1) : (u * Num(v)) % M(v) = 1 % M(v)
C18 ==
  /\ Now({"mpow"}) => Ok /\ Num(R[1]) = Times(Num(A[1]), Num(A[2])) % M(A[1])
  /\ Now({"inv"}) => IF HasInverse(A[1]) THEN Ok /\ (Num(R[1]) * Num(A[1])) % M(A[1]) = 1 % M(A[1]) /\ R[1].g = A[1].g
                     ELSE last.o = "none"
  /\ (Now({"div-m"}) /\ A[1].g = A[2].g) =>
       IF HasInverse(A[2]) THEN Ok /\ (Num(R[1]) * Num(A[2])) % M(A[1]) = Num(A[1]) % M(A[1]) ELSE last.o = "panic"
  /\ Now({"mpows"}) =>
       IF Num(A[2]) >= 0 THEN Ok /\ Num(R[1]) = Times(Num(A[1]), Num(A[2])) % M(A[1])
       ELSE IF HasInverse(A[1]) THEN Ok /\ (Num(R[1]) * Times(Num(A[1]), 0 - Num(A[2]))) % M(A[1]) = 1 % M(A[1])
       ELSE last.o = "panic"
C19 ==
  /\ (Family = "ring" /\ Now({"add", "sub", "mul", "div-m", "meq"}) /\ A[1].g # A[2].g) => last.o = "panic"
  /\ (Family = "ring" /\ Now({"add", "sub", "mul", "meq"}) /\ A[1].g = A[2].g) => Ok
  /\ Now({"meq"}) /\ Ok => R[1] = VBool(Num(A[1]) = Num(A[2]))
  /\ (Family = "ring" /\ Now({"clonefrom"})) => Ok /\ R[1] = A[2]

(* Serialized words mean the value again, and so they do with more zeros.    *)
WordsOf(toks) == SelectSeq(toks, LAMBDA t : t.k = "u64")
DeArgs(t, words, neg) ==
  <<V("usize", IF t = "i" THEN Z1 ELSE Z0), VX("w64", [k \in 1..Len(words) |-> ZText(words[k].z)]),
    V("i64", ZInt(Len(words))), V("usize", IF neg THEN Z1 ELSE Z0), V("usize", Z0)>>
C20 == Now({"ser"}) =>
  LET w == WordsOf(R[1].x)
      neg == \E k \in 1..Len(R[1].x) : R[1].x[k].k = "Sign.Negative"
      zero == [k |-> "u64", z |-> Z0]
  IN /\ w # <<>> => w[Len(w)].z # Z0
     /\ neg = (Num(A[1]) < 0)
     /\ \A more \in {<<>>, <<zero>>, <<zero, zero>>} :
          /\ Allowed("de", DeArgs(A[1].t, w \o more, neg), "ok", <<A[1]>>)
          /\ ~Allowed("de", DeArgs(A[1].t, w \o more, neg), "err:de", <<>>)
          /\ ~Allowed("de", DeArgs(A[1].t, w \o more, neg), "ok", <<V(A[1].t, ZAdd(A[1].z, Z1))>>)
     /\ \* a malformed form of it is refused
        \A mal \in 1..4 : ~Allowed("de", [DeArgs(A[1].t, w, neg) EXCEPT ![5] = V("usize", ZInt(mal))], "ok", <<A[1]>>)
C21 == (Family = "sample" /\ Now({"sample"})) =>
  LET lo == Num(A[1])
      hi == Num(A[2]) - (IF Num(A[3]) = 1 THEN 0 ELSE 1)
      longest == Top - 1  \* number of values of the longest range that need not be refused
  IN IF Ok THEN Num(R[1]) >= lo /\ Num(R[1]) <= hi ELSE last.o = "panic" /\ (lo > hi \/ Num(A[2]) - lo + 1 > longest)
(* and nothing in a range is left out *)
C21All == (Family = "sample" /\ Now({"sample"}) /\ Ok) =>
  \A n \in Num(A[1])..(Num(A[2]) - (IF Num(A[3]) = 1 THEN 0 ELSE 1)) : Allowed("sample", A, "ok", <<V(A[1].t, ZInt(n))>>)

(* Outcomes do not depend on the word size.  (Expect reads cfg; the next     *)
(* state's would be the same: only cfg.wbits, which it must not look at.)    *)
C23 ==
  last # Nothing =>
    /\ \A k \in DOMAIN regs :
         LET touched == \E j \in 1..Len(last.ops) : last.ops[j] \in {<<"v", k>>, <<"w", k>>}
             stored == \E j \in 1..Len(last.dsts) : last.dsts[j] = k
         IN /\ (~touched /\ ~stored) => regs[k] = last.before[k]
            /\ (~Ok /\ touched) => regs[k] = Absent
            /\ (~Ok /\ ~touched) => regs[k] = last.before[k]
    \* all forms alike
    /\ (last.f \notin RelOps /\ last.f # "load" /\ (Len(A) < 2 \/ A[1].t = A[2].t)) =>
         Expect(last.f, A, TRUE) = Expect(last.f, A, FALSE)
C24 == last # Nothing =>
  \A k \in 1..Len(R) : R[k].t \in {"u", "i"} => ZBitLen(R[k].z) <= MaxBits
C25 == last # Nothing => last.o \in {"ok", "panic", "none", "err:bounds", "err:invalid", "err:nodigits"}
C26 == (Now({"drop"}) /\ Ok) =>
  LET words == (ZBitLen(A[1].z) + 3) \div 4
  IN /\ words <= 1 => Num(R[1]) = 0
     /\ Num(R[1]) * 8 <= 4 * (2 * words + 6)
(* The same as converting the primitive first. *)
AsInt(v) == V("i", v.z)
C27 == (Family = "primitive" /\ Now(Arithmetic \cup Logic)) =>
  LET x == Num(A[1])
      y == Num(A[2])
      value(f) == CASE f = "add" -> x + y [] f = "sub" -> x - y [] f = "mul" -> x * y
      exact == Exact(last.f, A[1].z, A[2].z)
  IN IF last.f \in DivisionOps /\ y = 0 THEN last.o = "panic"
     ELSE /\ (Ok /\ last.f \in {"add", "sub", "mul"}) => Num(R[1]) = value(last.f)
          /\ Ok => \A k \in 1..Len(R) : R[k].z = exact[k] /\ InType(R[k].t, Num(R[k]))
          /\ ~Ok => last.o = "panic" /\ \E k \in 1..Len(exact) :
                 ~InType(IF A[1].t \in {"u", "i"} THEN BigFirstTypes(last.f, A[1].t, A[2].t, last.assign)[k]
                         ELSE ResultTypes(last.f, A[1].t, A[2].t, FALSE)[k], ZToInt(exact[k]))
          \* the big integer's type stays except where the smaller type always suffices
          /\ Ok => \A k \in 1..Len(R) :
                 R[k].t = (IF A[1].t \in {"u", "i"} THEN A[1].t ELSE A[2].t)
                 \/ last.f \in {"rem", "reme"} \/ (k = 2 /\ last.f \in {"divrem", "divreme"}) \/ last.f = "and"
=============================================================================
