------------------------------- MODULE AlgFloat --------------------------------
(* The float nearest to a number of many words, as the library packs it: the *)
(* top bits with one to spare, a sticky bit for all the words below, the     *)
(* exponent and the mantissa put together as one number, and a carry of the  *)
(* rounding let to run from the mantissa into the exponent (and from the     *)
(* largest exponent into the infinity).  The law it must meet is stated with *)
(* distances: nothing that can be represented is closer, ties go to even.    *)
EXTENDS Integers, Sequences
CONSTANTS W,          \* bits of a word
          Prec,       \* bits of the mantissa with its leading one
          Bias,       \* the largest exponent: 2^k - 1
          Limit       \* numbers below this
VARIABLES n, words, low, top, packed, pc
vars == <<n, words, low, top, packed, pc>>

RECURSIVE Bits(_), Split(_), Value(_)
Bits(m) == IF m = 0 THEN 0 ELSE 1 + Bits(m \div 2)
Split(m) == IF m = 0 THEN <<>> ELSE <<m % 2 ^ W>> \o Split(m \div 2 ^ W)
Value(s) == IF s = <<>> THEN 0 ELSE s[1] + 2 ^ W * Value(Tail(s))
Infinity == (2 * Bias + 1) * 2 ^ (Prec - 1)

Init == /\ n \in 2 ^ (Prec + 1)..Limit
        /\ words = Split(n) /\ low = FALSE /\ top = 0 /\ packed = 0 /\ pc = "size"
(* The number of low bits that do not fit, with one bit to spare. *)
Cut == Bits(n) - (Prec + 1)
Size == /\ pc = "size"
        /\ IF Bits(n) > Bias + 1 THEN pc' = "done" /\ packed' = Infinity
           ELSE pc' = "shift" /\ UNCHANGED packed
        /\ UNCHANGED <<n, words, low, top>>
(* Whole words away, then the bits, each word taking the next one's. *)
Shift ==
  /\ pc = "shift"
  /\ LET away == Cut \div W  part == Cut % W
         kept == SubSeq(words, away + 1, Len(words))
         At(i) == IF i > Len(kept) THEN 0 ELSE kept[i]
         shifted == [i \in 1..Len(kept) |-> At(i) \div 2 ^ part + ((At(i + 1) * 2 ^ (W - part)) % 2 ^ W)]
     IN top' = Value(IF part = 0 THEN kept ELSE shifted)
  /\ pc' = "sticky" /\ UNCHANGED <<n, words, low, packed>>
Sticky ==
  /\ pc = "sticky"
  /\ LET whole == Cut \div W  part == Cut % W
     IN low' = (IF whole >= Len(words) THEN TRUE
                ELSE (\E i \in 1..whole : words[i] # 0) \/ words[whole + 1] % 2 ^ part # 0)
  /\ pc' = "pack" /\ UNCHANGED <<n, words, top, packed>>
Pack == /\ pc = "pack"
        /\ packed' = (Bits(n) - 1 + Bias - 1) * 2 ^ (Prec - 1) + top \div 2
        /\ pc' = "round" /\ UNCHANGED <<n, words, low, top>>
Round ==
  /\ pc = "round"
  /\ LET three == 2 * (top % 4) + (IF low THEN 1 ELSE 0)
     IN packed' = packed + (IF three >= 6 \/ three = 3 THEN 1 ELSE 0)
  /\ pc' = "done" /\ UNCHANGED <<n, words, low, top>>
Next == Size \/ Shift \/ Sticky \/ Pack \/ Round

(* What a pattern stands for; the infinity as the next power would. *)
Meant(p) == LET e == p \div 2 ^ (Prec - 1) - Bias  m == (p % 2 ^ (Prec - 1)) + 2 ^ (Prec - 1)
            IN IF e >= Prec - 1 THEN m * 2 ^ (e - (Prec - 1)) ELSE m \div 2 ^ (Prec - 1 - e)
Gap(p) == IF Meant(p) >= n THEN Meant(p) - n ELSE n - Meant(p)
TopKept == pc \in {"sticky", "pack"} => top = n \div 2 ^ Cut
StickyTold == pc = "pack" => (low <=> n % 2 ^ Cut # 0)
Nearest ==
  pc = "done" =>
    IF Meant(Infinity) <= n THEN packed = Infinity
    ELSE /\ packed <= Infinity
         /\ \A q \in {packed - 1, packed + 1} :
              q <= Infinity => Gap(packed) < Gap(q) \/ (Gap(packed) = Gap(q) /\ packed % 2 = 0)
===============================================================================
