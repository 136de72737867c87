-------------------------------- MODULE GenPow --------------------------------
(* Powers in rings at the library's word size: every window that can occur   *)
(* for exponents of several lengths, at every position across a word         *)
(* boundary.  A program is kept when it takes a step not taken before.       *)
EXTENDS AlgPow, TLC, FiniteSets
ASSUME TLCSet(8, {})
Lens == {2, 3, 7, 8, 20, 33, 60, 100, 130, 250, 700}
Ones(k) == ZSub(ZTwo(k), Z1)
(* A leading one, a window at distance d below it, then a tail. *)
Init ==
  \E n \in Lens : \E d \in 1..(WB + 8) : \E v \in 0..(2 ^ (IF n < 7 THEN 2 ELSE IF n < 60 THEN 4 ELSE 6) - 1) : \E tail \in {"zeros", "ones", "one"} :
    LET w == Choose(n)
        top == ZTwo(n - 1)
        k == n - 1 - d - w
        low == ZShl(ZInt(v), IF k < 0 THEN 0 ELSE k)
        t == IF k <= 0 THEN Z0 ELSE CASE tail = "ones" -> Ones(k) [] tail = "one" -> Z1 [] OTHER -> Z0
        x == ZAdd(top, ZAdd(low, t))
    IN /\ v < 2 ^ w /\ d < n /\ ZBitLen(x) = n
       /\ n > 200 => tail = "ones" /\ (d > WB - w - 2 \/ d < 3)
       /\ Begin(x, w)
Spec == Init /\ [][Next]_vars
Mod(k) == <<ZAdd(ZTwo(WB), ZInt(15)), ZSub(ZTwo(2 * WB), Z1), ZAdd(ZTwo(2 * WB), ZInt(9)),
            ZSub(ZTwo(3 * WB - 3), ZInt(5)), ZAdd(ZMul(Ones(WB - 1), ZTwo(2 * WB)), ZInt(3))>>[(k % 5) + 1]
Base(k) == <<ZInt(3), ZAdd(ZTwo(WB), ZInt(1)), ZSub(ZTwo(WB), ZInt(3)), ZInt(-1)>>[(k % 4) + 1]
Program(k) ==
  "load|15|u:" \o ZText(Mod(k)) \o " ~ ring||r15 ~ load|14|i:" \o ZText(Base(k)) \o " ~ into|0|g:0;r14 ~ load|1|u:"
  \o ZText(e) \o " ~ mpow|2|r0;r1 ~ residue|3|r2 ~ balance||"
Export ==
  pc = "done" =>
    IF steps \subseteq TLCGet(8) THEN TRUE
    ELSE LET k == TLCGet(8) IN TLCSet(8, k \cup steps) /\ PrintT("PROGRAM " \o Program(Cardinality(k)))
===============================================================================
