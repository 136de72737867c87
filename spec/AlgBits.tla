-------------------------------- MODULE AlgBits --------------------------------
(* Single bits of numbers of many words, done in place in the words: setting *)
(* (the words may have to grow), clearing (they may have to shrink), asking, *)
(* lengths, trailing zeros, powers of two and the next of them.              *)
EXTENDS Integers, Sequences
CONSTANTS W, Top, Places
VARIABLES op, x, n, s, carry, i, r, pc
vars == <<op, x, n, s, carry, i, r, pc>>

B == 2 ^ W
RECURSIVE Split(_), Value(_), Normal(_), Bits(_), Zeros(_), Power(_)
Split(m) == IF m = 0 THEN <<>> ELSE <<m % B>> \o Split(m \div B)
Value(q) == IF q = <<>> THEN 0 ELSE q[1] + B * Value(Tail(q))
Normal(q) == IF q # <<>> /\ q[Len(q)] = 0 THEN Normal(SubSeq(q, 1, Len(q) - 1)) ELSE q
Bits(m) == IF m = 0 THEN 0 ELSE 1 + Bits(m \div 2)
Zeros(m) == IF m % 2 = 1 THEN 0 ELSE 1 + Zeros(m \div 2)
Power(m) == IF m <= 1 THEN 1 ELSE 2 * Power((m + 1) \div 2)
Bit(m, k) == (m \div 2 ^ k) % 2 = 1

Init == /\ x \in 0..Top
        /\ \/ op \in {"set", "clear", "bit"} /\ n \in Places
           \/ op \in {"length", "zeros", "power", "next"} /\ n = 0
        /\ s = Split(x) /\ carry = 0 /\ i = 1 /\ r = 0 /\ pc = "go"
Done(z) == r' = z /\ pc' = "done" /\ UNCHANGED <<carry, i>>
At == n \div W + 1
Mask == 2 ^ (n % W)
Pad(q, k) == q \o [j \in 1..(k - Len(q)) |-> 0]
Set == /\ pc = "go" /\ op = "set"
       /\ s' = (IF At <= Len(s) THEN [s EXCEPT ![At] = IF Bit(@, n % W) THEN @ ELSE @ + Mask]
                ELSE Append(Pad(s, At - 1), Mask))
       /\ Done(Value(s'))
Clear == /\ pc = "go" /\ op = "clear"
         /\ s' = Normal(IF At <= Len(s) THEN [s EXCEPT ![At] = IF Bit(@, n % W) THEN @ - Mask ELSE @] ELSE s)
         /\ Done(Value(s'))
Ask == /\ pc = "go" /\ op \in {"bit", "length", "power"}
       /\ Done(CASE op = "bit" -> (IF At <= Len(s) /\ Bit(s[At], n % W) THEN 1 ELSE 0)
                 [] op = "length" -> (IF s = <<>> THEN 0 ELSE (Len(s) - 1) * W + Bits(s[Len(s)]))
                 [] op = "power" -> (IF s # <<>> /\ (\A k \in 1..(Len(s) - 1) : s[k] = 0) /\ s[Len(s)] = 2 ^ (Bits(s[Len(s)]) - 1)
                                     THEN 1 ELSE 0))
       /\ UNCHANGED s
(* Word by word to the first that is not zero. *)
Walk == /\ pc = "go" /\ op = "zeros"
        /\ IF s = <<>> THEN r' = -1 /\ pc' = "done" /\ UNCHANGED i
           ELSE IF s[i] = 0 THEN i' = i + 1 /\ UNCHANGED <<r, pc>>
           ELSE r' = (i - 1) * W + Zeros(s[i]) /\ pc' = "done" /\ UNCHANGED i
        /\ UNCHANGED <<s, carry>>
(* The words below the top become zeros and, unless they were, add one to it.*)
Sweep == /\ pc = "go" /\ op = "next"
         /\ IF i < Len(s)
            THEN /\ carry' = (IF s[i] # 0 THEN 1 ELSE carry)
                 /\ s' = [s EXCEPT ![i] = 0] /\ i' = i + 1 /\ UNCHANGED pc
            ELSE /\ pc' = "top" /\ UNCHANGED <<s, i, carry>>
         /\ UNCHANGED r
TopWord == /\ pc = "top"
           /\ IF s = <<>> THEN s' = <<1>>
              ELSE LET t == s[Len(s)] + carry
                   IN IF t < B /\ Power(t) < B THEN s' = [s EXCEPT ![Len(s)] = Power(t)]
                      ELSE s' = Append([s EXCEPT ![Len(s)] = 0], 1)
           /\ Done(Value(s'))
Next == (Set \/ Clear \/ Ask \/ Walk \/ Sweep \/ TopWord) /\ UNCHANGED <<op, x, n>>

Correct == pc = "done" =>
  CASE op = "set" -> r = (IF Bit(x, n) THEN x ELSE x + 2 ^ n)
    [] op = "clear" -> r = (IF Bit(x, n) THEN x - 2 ^ n ELSE x)
    [] op = "bit" -> r = (IF Bit(x, n) THEN 1 ELSE 0)
    [] op = "length" -> (IF x = 0 THEN r = 0 ELSE 2 ^ (r - 1) <= x /\ x < 2 ^ r)
    [] op = "zeros" -> (IF x = 0 THEN r = -1 ELSE x % 2 ^ r = 0 /\ Bit(x, r))
    [] op = "power" -> (r = 1 <=> x \in {2 ^ k : k \in 0..20})
    [] op = "next" -> r >= x /\ r \in {2 ^ k : k \in 0..20} /\ (r > 1 => r \div 2 < x)
Least == pc = "done" => Normal(s) = s
===============================================================================
