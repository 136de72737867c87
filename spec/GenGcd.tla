-------------------------------- MODULE GenGcd --------------------------------
(* Pairs around the word boundaries, with shared factors, consecutive        *)
(* Fibonacci numbers and powers; every pair of them, in each type and sign.  *)
EXTENDS AlgGcd, TLC
CONSTANT WB
ASSUME TLCSet(8, 0)
Pw(n, d) == ZAdd(ZTwo(n), ZInt(d))
RECURSIVE Fib(_, _, _)
Fib(f, g, n) == IF ZBitLen(f) > n THEN f ELSE Fib(g, ZAdd(f, g), n)
F(n) == Fib(Z1, Z1, n)
Factor == <<ZInt(6), Pw(WB, -1), Pw(WB - 1, 0)>>
Numbers ==
  <<Z0, Z1, ZInt(2), ZInt(3), ZInt(12), Pw(WB - 1, 1), Pw(WB, -1), Pw(WB, 0), Pw(WB, 1), F(WB - 1), F(WB), Pw(2 * WB - 1, 3),
    Pw(2 * WB, -1), Pw(2 * WB, 0), Pw(2 * WB, 1), F(2 * WB - 1), F(2 * WB), ZSub(Pw(2 * WB, 0), ZTwo(WB)), ZPow(ZInt(3), WB),
    Pw(3 * WB, -1), F(3 * WB - 2), ZMul(Factor[2], Factor[2]), ZMul(Factor[1], F(WB)), ZMul(Factor[3], F(WB)), ZMul(Factor[2], F(WB - 3))>>
More == <<ZInt(5), ZInt(255), ZInt(256), ZInt(1001)>>
All == Numbers \o More
Init == \E i, j \in 1..Len(All) : i + j > 2 /\ Begin(All[i], All[j])
Spec == Init /\ [][Next]_vars
Spell(z, k) == IF z # Z0 /\ (k \div 2) % 2 = 1 THEN "-" \o ZText(z) ELSE ZText(z)
Program(k) ==
  IF k % 2 = 1
  THEN "load|0|i:" \o Spell(x, k \div 2) \o " ~ load|1|i:" \o Spell(y, k \div 4) \o " ~ egcd|2,3,4|r0;r1 ~ gcd|2|r1;r0"
  ELSE "load|0|u:" \o ZText(x) \o " ~ load|1|u:" \o ZText(y) \o " ~ egcd|2,3,4|r0;r1 ~ gcd|2|r0;r1"
Export == pc = "done" => TLCSet(8, TLCGet(8) + 1) /\ PrintT("PROGRAM " \o Program(TLCGet(8)))
===============================================================================
