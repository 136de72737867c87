-------------------------------- MODULE AlgTwos --------------------------------
(* Bitwise operations and shifts as the library does them on magnitudes of   *)
(* many words: word by word where both have words, the longer one's rest     *)
(* kept, dropped or left alone; negative numbers through their complements   *)
(* -(x + 1), which are not negative; shifts word-wise, then bit-wise with    *)
(* the bits carried over, and a negative quotient one less if bits fell off. *)
(* The laws read each number as endless two's complement bits.               *)
EXTENDS Integers, Sequences
CONSTANTS W, Top, Shifts
VARIABLES op, x, y, u, v, inner, flip, r, pc
vars == <<op, x, y, u, v, inner, flip, r, pc>>

B == 2 ^ W
RECURSIVE Split(_), Value(_), Normal(_)
Split(m) == IF m = 0 THEN <<>> ELSE <<m % B>> \o Split(m \div B)
Value(s) == IF s = <<>> THEN 0 ELSE s[1] + B * Value(Tail(s))
Normal(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Normal(SubSeq(s, 1, Len(s) - 1)) ELSE s
Compl(a) == -(a + 1)
Bit(a, i) == (a \div 2 ^ i) % 2 = 1      \* also of negative ones: \div is the floor

(* ------------------------------------------------- two words of W bits -- *)
RECURSIVE Word(_, _, _, _)
One(f, a, b) == CASE f = "and" -> a * b [] f = "or" -> a + b - a * b [] f = "xor" -> (a + b) % 2
                  [] f = "andnot" -> a * (1 - b)
Word(f, a, b, k) == IF k = 0 THEN 0 ELSE One(f, a % 2, b % 2) + 2 * Word(f, a \div 2, b \div 2, k - 1)
Min(a, b) == IF a < b THEN a ELSE b
(* ---------------------------------------------- two magnitudes, in place - *)
Words(f, a, b) ==
  LET short == Min(Len(a), Len(b))
      both == [i \in 1..short |-> Word(f, a[i], b[i], W)]
      more(s) == SubSeq(s, short + 1, Len(s))
  IN Normal(CASE f = "and" -> both
              [] f \in {"or", "xor"} -> both \o (IF Len(a) > Len(b) THEN more(a) ELSE more(b))
              [] f = "andnot" -> both \o more(a))
(* ------------------------------------------------------------- shifts ---- *)
Zeros(k) == [i \in 1..k |-> 0]
Left(s, n) ==
  LET part == n % W
      At(i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
      bits == [i \in 1..(Len(s) + 1) |-> ((At(i) * 2 ^ part) % B) + (At(i - 1) * 2 ^ part) \div B]
  IN IF s = <<>> THEN s ELSE Normal(Zeros(n \div W) \o bits)
Right(s, n) ==
  LET part == n % W
      kept == SubSeq(s, n \div W + 1, Len(s))
      At(i) == IF i \in 1..Len(kept) THEN kept[i] ELSE 0
  IN Normal([i \in 1..Len(kept) |-> At(i) \div 2 ^ part + ((At(i + 1) * 2 ^ (W - part)) % B)])
FallOff(s, n) ==
  LET whole == n \div W
  IN IF whole >= Len(s) THEN TRUE ELSE (\E i \in 1..whole : s[i] # 0) \/ s[whole + 1] % 2 ^ (n % W) # 0

(* ------------------------------------------------------------- the steps - *)
Binary == {"and", "or", "xor", "andnot"}
Init == /\ x \in (-Top)..Top
        /\ \/ op \in Binary /\ y \in (-Top)..Top
           \/ op \in {"shl", "shr"} /\ y \in Shifts
           \/ op = "not" /\ y = 0
        /\ u = <<>> /\ v = <<>> /\ inner = "none" /\ flip = FALSE /\ r = 0 /\ pc = "signs"
(* Which operation on which magnitudes; whether the outcome is a complement. *)
Plan ==
  LET a == Split(IF x < 0 THEN Compl(x) ELSE x)
      b == Split(IF y < 0 THEN Compl(y) ELSE y)
      neg == <<x < 0, y < 0>>
      P(f, s, t, c) == <<f, s, t, c>>
  IN CASE op = "and" -> (CASE neg = <<FALSE, FALSE>> -> P("and", a, b, FALSE) [] neg = <<FALSE, TRUE>> -> P("andnot", a, b, FALSE)
                           [] neg = <<TRUE, FALSE>> -> P("andnot", b, a, FALSE) [] OTHER -> P("or", a, b, TRUE))
       [] op = "or" -> (CASE neg = <<FALSE, FALSE>> -> P("or", a, b, FALSE) [] neg = <<FALSE, TRUE>> -> P("andnot", b, a, TRUE)
                          [] neg = <<TRUE, FALSE>> -> P("andnot", a, b, TRUE) [] OTHER -> P("and", a, b, TRUE))
       [] op = "xor" -> P("xor", a, b, neg[1] # neg[2])
       [] op = "andnot" -> (CASE neg = <<FALSE, FALSE>> -> P("andnot", a, b, FALSE) [] neg = <<FALSE, TRUE>> -> P("and", a, b, FALSE)
                              [] neg = <<TRUE, FALSE>> -> P("or", a, b, TRUE) [] OTHER -> P("andnot", b, a, FALSE))
Signs == /\ pc = "signs" /\ op \in Binary
         /\ inner' = Plan[1] /\ u' = Plan[2] /\ v' = Plan[3] /\ flip' = Plan[4]
         /\ pc' = "words" /\ UNCHANGED <<op, x, y, r>>
WordsStep == /\ pc = "words"
             /\ LET z == Value(Words(inner, u, v)) IN r' = (IF flip THEN Compl(z) ELSE z)
             /\ pc' = "done" /\ UNCHANGED <<op, x, y, u, v, inner, flip>>
Abs(a) == IF a < 0 THEN -a ELSE a
Shift == /\ pc = "signs" /\ op \in {"shl", "shr", "not"}
         /\ LET m == Split(Abs(x))
            IN /\ u' = m
               /\ r' = (CASE op = "not" -> -(x + 1)
                          [] op = "shl" -> (IF x < 0 THEN -Value(Left(m, y)) ELSE Value(Left(m, y)))
                          [] op = "shr" -> (IF x >= 0 THEN Value(Right(m, y))
                                            ELSE -Value(Right(m, y)) - (IF FallOff(m, y) THEN 1 ELSE 0)))
         /\ pc' = "done" /\ UNCHANGED <<op, x, y, v, inner, flip>>
Next == Signs \/ WordsStep \/ Shift

(* -------------------------------------------------------------- the laws - *)
Places == 0..(W * 4)
Correct == pc = "done" =>
  CASE op = "and" -> \A i \in Places : Bit(r, i) <=> Bit(x, i) /\ Bit(y, i)
    [] op = "or" -> \A i \in Places : Bit(r, i) <=> Bit(x, i) \/ Bit(y, i)
    [] op = "xor" -> \A i \in Places : Bit(r, i) <=> (Bit(x, i) # Bit(y, i))
    [] op = "andnot" -> \A i \in Places : Bit(r, i) <=> Bit(x, i) /\ ~Bit(y, i)
    [] op = "not" -> \A i \in Places : Bit(r, i) <=> ~Bit(x, i)
    [] op = "shl" -> r = x * 2 ^ y
    [] op = "shr" -> r * 2 ^ y <= x /\ x < (r + 1) * 2 ^ y
(* The inner operands are never those of negative numbers: the sign of the   *)
(* outcome is all in the complement.                                         *)
SignRight == pc = "done" /\ op \in Binary => ((r < 0) <=> flip)
===============================================================================
