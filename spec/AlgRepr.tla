------------------------------- MODULE AlgRepr -------------------------------
(* How a value is stored: a number of one word is kept inline (capacity 0),  *)
(* a longer one in a heap buffer of some capacity that operations taking the *)
(* number by value reuse.  One register is followed through such operations; *)
(* prog collects the calls (register 0 the number, register 1 an operand).   *)
EXTENDS Slices, TLC
CONSTANTS MaxLen, Grow, Kinds
VARIABLES z, cap, prog, op
vars == <<z, cap, prog, op>>

Len0(x) == (ZBitLen(x) + WB - 1) \div WB
Default(n) == n + n \div 8 + 2
MaxCompact(n) == n + n \div 4 + 4
(* Leading zeros are dropped; a buffer grown too large for its number shrinks. *)
Settle(x, c) ==
  LET n == Len0(x) IN IF n <= 1 THEN 0 ELSE IF c > MaxCompact(n) THEN Default(n) ELSE c
Ensure(c, n) == IF n > c THEN Default(n) ELSE c
Large == cap > 0
N0 == Len0(z)

Do(name, x, c, text) ==
  /\ ~x.neg /\ Len0(x) <= MaxLen
  /\ z' = x /\ cap' = Settle(x, c) /\ op' = name /\ prog' = prog \o " ~ " \o text
Operand(x) == "load|1|u:" \o ZText(x) \o " ~ "
Num(n) == ZText(ZInt(n))

Init ==
  \E n \in 1..MaxLen : \E k \in Kinds :
    /\ z = Block(k, n) /\ ~z.neg /\ Len0(z) = n
    /\ cap = IF n = 1 THEN 0 ELSE Default(n)
    /\ op = "load" /\ prog = "load|0|u:" \o ZText(z)

AddShort == \E d \in {Z1, ZSub(WordsOf(1), Z1)} :
  LET s == ZAdd(z, d)
  IN Large /\ Do("add1", s, Ensure(cap, Len0(s)), Operand(d) \o "add|0|v0;v1")
SubShort == \E d \in {Z1} : z # Z0 /\ Do("sub1", ZSub(z, d), cap, Operand(d) \o "sub|0|v0;v1")
AddLong == \E j \in Grow : \E k \in {"max", "high"} :
  LET b == Block(k, N0 + j)
      s == ZAdd(z, b)
  IN Large /\ Do("add", s, Ensure(Ensure(cap, N0 + j), Len0(s)), Operand(b) \o "add|0|v0;r1")
SubTo == \E j \in 1..MaxLen : \E k \in {"high"} :
  /\ Large /\ j < N0
  /\ Do("sub", Block(k, j), cap, Operand(ZSub(z, Block(k, j))) \o "sub|0|v0;r1")
SubFrom == \E j \in Grow : \E k \in {"max"} :
  LET b == Block(k, N0 + j)
  IN Large /\ Do("subfrom", ZSub(b, z), Ensure(cap, N0 + j), Operand(b) \o "sub|0|r1;v0")
ShiftLeft == \E s \in {1, WB - 1} \cup {WB * j : j \in Grow \ {0}} \cup {WB * j + 1 : j \in Grow} :
  LET need == N0 + s \div WB + 1
  IN Large /\ Do("shl", ZShl(z, s), IF cap < need THEN Default(need) ELSE cap, "shl|0|v0;usize:" \o Num(s))
ShiftRight == \E s \in {WB - 1} \cup {WB * j : j \in 1..N0} :
  Large /\ Do("shr", ZShrFloor(z, s), cap, "shr|0|v0;usize:" \o Num(s))
SetBit == \E j \in Grow :
  LET i == (N0 + j) * WB + 1
  IN Large /\ Do("setbit", ZAdd(z, ZTwo(i)), Ensure(cap, N0 + j + 1), "setbit||w0;usize:" \o Num(i))
ClearTop == Large /\ Do("clearbit", ZSub(z, ZTwo(ZBitLen(z) - 1)), cap, "clearbit||w0;usize:" \o Num(ZBitLen(z) - 1))
OrLong == \E f \in {"or", "xor"} : \E j \in Grow : \E k \in {"high"} :
  LET b == Block(k, N0 + j)
      r == IF f = "or" THEN ZOr(z, b) ELSE ZXor(z, b)
  IN Large /\ Do(f, r, Ensure(cap, N0 + j), Operand(b) \o f \o "|0|v0;r1")
AndShort == \E f \in {"and", "andnot"} : \E j \in 1..N0 :
  LET b == IF f = "and" THEN Block("max", j) ELSE ZSub(WordsOf(N0), Block("high", j))
      r == IF f = "and" THEN ZAnd(z, b) ELSE ZSub(z, ZAnd(z, b))
  IN Large /\ Do(f, r, cap, Operand(b) \o f \o "|0|v0;r1")
MulWord == \E b \in {ZInt(2), ZSub(WordsOf(1), Z1)} :
  LET p == ZMul(z, b)
  IN Large /\ Do("mul", p, Ensure(cap, Len0(p)), Operand(b) \o "mul|0|v0;v1")
Clone == Do("clone", z, IF Large THEN Default(N0) ELSE 0, "clone|1|r0 ~ drop||v0 ~ clone|0|r1")
(* Copying into existing storage reuses it only if it is the right size.     *)
CloneFrom == \E n \in 1..MaxLen : \E k \in {"max", "high"} :
  LET b == Block(k, n)
  IN Do("clonefrom", b,
        IF n > 1 /\ Large /\ cap >= n /\ cap <= MaxCompact(n) THEN cap ELSE Default(n),
        Operand(b) \o "clonefrom||w0;r1")
Next == \/ AddShort \/ SubShort \/ AddLong \/ SubTo \/ SubFrom \/ ShiftLeft \/ ShiftRight \/ SetBit
        \/ ClearTop \/ OrLong \/ AndShort \/ MulWord \/ Clone \/ CloneFrom

(* One state per length, capacity and shape of the number. *)
Shape == CASE z = Z0 -> "zero" [] ZBitLen(z) = N0 * WB -> "full" [] OTHER -> "other"
View == <<N0, cap, Shape, op>>

(* The representation is unique and compact: what memory use may rest on.    *)
Compact == IF N0 <= 1 THEN cap = 0 ELSE cap >= N0 /\ cap <= MaxCompact(N0)
(* The comment on From<Buffer>: lengths n-2..n+2 need no second allocation.  *)
NoReallocation == \A n \in 2..200 : \A k \in (n - 2)..(n + 2) :
  k >= 2 /\ k <= Default(n) => Default(n) <= MaxCompact(k)
=============================================================================
