----------------------------- MODULE GenFastDiv ------------------------------
(* At the library's word size, by the corrections they need: double words    *)
(* around multiples of divisors of every shape; words around multiples of    *)
(* every radix.  The library divides by a normalized word after shifting.    *)
EXTENDS AlgFastDiv, Emit
CONSTANT Keep
Odd(k) == ZMod(ZPow(ZInt(3), 2 * k + 41), W)  \* words without a pattern
Normal(x) == ZShl(x, WB - ZBitLen(x))
Divisors == {ZTwo(WB - 1), ZAdd(ZTwo(WB - 1), Z1), ZSub(W, Z1), ZSub(W, ZInt(2)), ZSub(W, ZInt(3)),
             ZAdd(ZTwo(WB - 1), ZInt(2)), ZAdd(ZTwo(WB - 1), ZTwo(WB \div 2)), ZSub(W, ZTwo(WB \div 2)),
             ZDivT(ZMul(W, ZInt(2)), ZInt(3)), Normal(ZInt(3)), Normal(ZInt(5)), Normal(ZInt(7)), Normal(ZInt(10))}
            \cup {Normal(Odd(k)) : k \in 1..12}
Quotients == {Z0, Z1, ZInt(2), ZSub(W, Z1), ZSub(W, ZInt(2)), ZTwo(WB - 1), ZSub(ZTwo(WB - 1), Z1), ZTwo(WB \div 2)}
            \cup {Odd(k) : k \in 13..20}
Rests(x) == {Z0, Z1, ZSub(x, Z1), ZSub(x, ZInt(2)), ZShrFloor(x, 1), ZSub(W, x)} \cup {ZMod(Odd(k), x) : k \in 21..26}
Init ==
  \/ \E dd \in Divisors : \E x \in Quotients : \E y \in Rests(dd) :
       ZLt(y, dd) /\ Begin("big", dd, ZAdd(ZMul(x, dd), y))
  \/ \E k \in 3..36 : \E x \in {ZDivT(ZSub(W, Z1), ZInt(k)), ZDivT(ZTwo(WB - 1), ZInt(k)), Odd(k), ZDivT(Odd(k + 40), ZInt(k))} :
     \E y \in {0, 1, k - 1} :
       ZLt(ZAdd(ZMul(ZDivT(x, ZInt(k)), ZInt(k)), ZInt(y)), W)
         /\ Begin("small", ZInt(k), ZAdd(ZMul(ZDivT(x, ZInt(k)), ZInt(k)), ZInt(y)))
  \/ \E k \in 3..36 : \E y \in {0, 1} :  \* the largest multiple of the radix that is a word
       LET top == ZMul(ZDivT(ZSub(W, Z1), ZInt(k)), ZInt(k)) IN Begin("small", ZInt(k), ZSub(top, ZInt(y)))
Spec == Init /\ [][Next]_vars
Class(x) == IF x = Z0 THEN "0" ELSE IF x = Z1 THEN "1" ELSE IF ZAdd(x, Z1) = W THEN "max" ELSE "x"
Path == IF kind = "big" THEN <<path, Class(q), Class(r), Class(Hi(a)), Class(q0), d>> ELSE <<d, r, ZLe(ZSub(W, a), d)>>
Export == pc = "done" => Emit(Path, Keep, kind \o " " \o ZText(a) \o " " \o ZText(d))
=============================================================================
