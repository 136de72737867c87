-------------------------------- MODULE AlgPow --------------------------------
(* Sliding-window exponentiation in a ring of long numbers, as the library   *)
(* does it: odd powers below 2^wl in a table, windows cut from two adjacent  *)
(* words of the exponent.  The running value base^acc is represented by acc. *)
EXTENDS Integers, Sequences, BigZ
CONSTANT WB
VARIABLES e, wl, bit, acc, pc, steps
vars == <<e, wl, bit, acc, pc, steps>>

W == ZTwo(WB)
Word(k) == IF k < 0 THEN Z0 ELSE ZMod(ZShrFloor(e, k * WB), W)
(* The window length the library picks for n-bit exponents. *)
Cost(n, w) == (2 ^ (w - 1)) - 1 + n \div (w + 1)
RECURSIVE Pick(_, _)
Pick(n, w) == IF w + 1 >= WB \/ Cost(n, w) <= Cost(n, w + 1) THEN w ELSE Pick(n, w + 1)
Choose(n) == Pick(n, 1)

Begin(x, w) == /\ e = x /\ wl = w /\ acc = ZInt(2) /\ bit = ZBitLen(x) - 2 /\ pc = "loop" /\ steps = {}

BitIdx == bit % WB
Raw == ZMod(ZShrFloor(ZAdd(ZMul(Word(bit \div WB), W), Word((bit \div WB) - 1)), BitIdx + 1 + WB - wl), ZTwo(wl))
Window ==
  /\ pc = "loop" /\ ZBit(e, bit)
  /\ LET tz == ZTz(Raw)
         bits == wl - tz
         odd == ZShrFloor(Raw, tz)
     IN /\ acc' = ZAdd(ZShl(acc, bits - 1), odd)
        /\ bit' = bit - (bits - 1)
        /\ steps' = steps \cup {<<wl, ZToInt(odd), IF BitIdx + 1 >= bits THEN "inside" ELSE "across",
                                  IF BitIdx + 1 >= wl THEN wl ELSE BitIdx + 1, IF bit - (bits - 1) = 0 THEN "last" ELSE "more">>}
  /\ pc' = "next" /\ UNCHANGED <<e, wl>>
Zero == /\ pc = "loop" /\ ~ZBit(e, bit) /\ pc' = "next"
        /\ steps' = steps \cup {<<wl, 0, IF bit = 0 THEN "last" ELSE "more">>} /\ UNCHANGED <<e, wl, bit, acc>>
Square == /\ pc = "next" /\ bit > 0 /\ pc' = "loop" /\ bit' = bit - 1 /\ acc' = ZShl(acc, 1) /\ UNCHANGED <<e, wl, steps>>
Stop == /\ pc = "next" /\ bit = 0 /\ pc' = "done" /\ UNCHANGED <<e, wl, bit, acc, steps>>
Next == Window \/ Zero \/ Square \/ Stop

InRange == bit >= 0
Prefix == /\ pc = "loop" => acc = ZShl(ZShrFloor(e, bit + 1), 1)
          /\ pc = "next" => acc = ZShrFloor(e, bit)
(* The table holds the odd powers below 2^wl. *)
InTable == \A s \in steps : s[2] = 0 \/ (s[2] % 2 = 1 /\ s[2] < 2 ^ wl)
Correct == pc = "done" => acc = e
Chosen == Choose(ZBitLen(e)) \in 1..(WB - 1)
===============================================================================
