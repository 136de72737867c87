------------------------------- MODULE GenRing --------------------------------
(* Ring arithmetic at the library's word size: boundary moduli and numbers   *)
(* through every path of AlgRing in every operand form; inverses, quotients  *)
(* and signed powers of the results; operands of different rings.            *)
EXTENDS AlgRing, TLC, FiniteSets
VARIABLES form, k
ASSUME TLCSet(8, {})
Pw(n, d) == ZAdd(ZTwo(n), ZInt(d))
Moduli == <<Z1, ZInt(2), ZInt(3), ZInt(10), Pw(WB - 1, -1), Pw(WB - 1, 0), Pw(WB - 1, 1), Pw(WB, -2), Pw(WB, -1),
            Pw(WB, 0), Pw(WB, 1), Pw(WB + 1, 3), Pw(2 * WB - 1, -1), Pw(2 * WB - 1, 0), Pw(2 * WB - 1, 1), Pw(2 * WB, -1),
            ZSub(Pw(2 * WB, 0), ZTwo(WB)), Pw(2 * WB, 0), Pw(2 * WB, 1), Pw(3 * WB, -1), Pw(3 * WB - 5, 9)>>
Numbers(n) == <<Z0, Z1, ZInt(-1), ZShrFloor(n, 1), ZAdd(ZShrFloor(n, 1), Z1), ZSub(n, Z1), n, ZNeg(n), ZAdd(n, Z1),
                ZSub(ZAdd(n, n), Z1), Pw(WB, -1), ZTwo(WB), ZSub(Z1, Pw(2 * WB, 0)), ZSub(ZMul(n, n), Z1),
                ZMul(n, ZTwo(WB)), ZAdd(ZMul(n, Pw(WB, -1)), ZInt(5)), ZShrFloor(Pw(3 * WB, -1), WB \div 2)>>
Forms(f) == IF f = "neg" THEN <<"v0", "r0">> ELSE <<"v0;v1", "v0;r1", "r0;v1", "r0;r1", "w0;v1", "w0;r1">>
Init ==
  \E i \in 1..Len(Moduli) :
    LET n == Moduli[i]
        z == Numbers(n)
    IN \E j, l \in 1..Len(z) : \E f \in {"add", "sub", "neg", "mul"} : \E g \in 1..Len(Forms(f)) :
      /\ f = "neg" => l = 1
      /\ g = ((i + 2 * j + 3 * l) % Len(Forms(f))) + 1 \/ (j \in {2, 6} /\ l \in {2, 5, 6})
      /\ form = g /\ k = i + j + 5 * l
      /\ Begin(n, z[j], z[l], f)
Spec == Init /\ [][Next /\ UNCHANGED <<form, k>>]_<<vars, form, k>>

Load(reg, z) == "load|" \o ToString(reg) \o "|i:" \o ZText(z)
Into(reg, z, how) == Load(14, z) \o " ~ into|" \o ToString(reg) \o "|g:0;" \o (IF how % 2 = 0 THEN "r14" ELSE "v14")
(* What the program does with the result besides looking at it. *)
After ==
  CASE k % 5 = 0 -> " ~ inv|3|r2"
    [] k % 5 = 1 -> " ~ mul|3|r2;r2"
    [] k % 5 = 2 -> " ~ div|3|r2;r2"
    [] k % 5 = 3 -> " ~ load|13|i:-3 ~ mpows|3|r2;r13"
    [] OTHER -> " ~ sub|3|r2;r2"
Tag == IF k % 5 \in {0, 2, 3} /\ (op = "neg" \/ form < 5) THEN "inverse " ELSE "plain "
Result == IF op # "neg" /\ form > 4 THEN "" ELSE "2"
Program ==
  "load|15|u:" \o ZText(m) \o " ~ ring||r15 ~ " \o Into(0, x, k) \o " ~ " \o Into(1, y, k + 1)
  \o " ~ " \o op \o "|" \o Result \o "|" \o Forms(op)[form]
  \o (IF Result = "" THEN " ~ residue|4|r0 ~ balance||" ELSE " ~ residue|4|r2" \o After \o " ~ balance||")
(* A residue already seen may be asked for again only on a new path.         *)
Class == <<Words(m), IF Shift = 0 THEN "normal" ELSE IF Shift = WB - 1 THEN "one" ELSE "shifted">>
Ask == <<Class, op, form, Tail(path), r = Z0>>
Keep == {<<Class, op, form, path[5], r = Z0>>, <<Class, op, path>>}
Export ==
  pc = "done" =>
    IF Keep \subseteq TLCGet(8) THEN TRUE
    ELSE TLCSet(8, TLCGet(8) \cup Keep) /\ PrintT("PROGRAM " \o Tag \o Program)

(* ------------------------------------------------------- different rings - *)
Pairs == {<<ZInt(10), ZInt(10)>>, <<ZInt(10), ZInt(11)>>, <<ZInt(7), Pw(WB, 1)>>, <<Pw(WB, 1), ZInt(7)>>,
          <<Pw(WB, 1), Pw(WB, 1)>>, <<Pw(WB, 1), Pw(WB, 3)>>, <<Pw(WB, 1), Pw(2 * WB, 1)>>, <<Pw(2 * WB, 1), Pw(WB, 1)>>}
Mixed(p, f, g) ==
  "load|15|u:" \o ZText(p[1]) \o " ~ ring||r15 ~ load|15|u:" \o ZText(p[2]) \o " ~ ring||r15 ~ into|0|g:0;u8:3 ~ into|1|g:1;u8:3 ~ "
  \o (IF f = "meq" THEN "meq||r0;r1 ~ meq||r1;r0 ~ ringeq||g:0;g:1 ~ ringeq||g:1;g:1"
      ELSE f \o "|" \o (IF g > 4 THEN "" ELSE "2") \o "|" \o Forms(f)[g]) \o " ~ balance||"
ASSUME \A p \in Pairs : \A f \in {"add", "sub", "mul", "div", "meq"} : \A g \in 1..6 :
         f # "meq" \/ g = 1 => PrintT("PROGRAM mixed " \o Mixed(p, f, g))
===============================================================================
