-------------------------------- MODULE AlgAdd ---------------------------------
(* Sums and differences of magnitudes of many words, as the library does     *)
(* them in place: word by word with a carry where both have words, the carry *)
(* alone through the rest until it stops.                                    *)
(*   add    x + y into x's words: y's further words are taken over first     *)
(*   sub    x - y into x's words; too small is a failure                     *)
(*   swap   x - y into y's words: x's further words are taken over           *)
(*   signed x - y with a sign, into x's words, which are at least as many:   *)
(*          zeros on top are not looked at, the longer one is the greater,   *)
(*          equal words on top cancel, and the first that differ decide      *)
EXTENDS Integers, Sequences
CONSTANTS Base, Digit, MaxLen, Ops, Padded
VARIABLES op, x, y, w, i, c, n, sign, pc, path
vars == <<op, x, y, w, i, c, n, sign, pc, path>>

RECURSIVE Value(_), Normal(_)
Value(q) == IF q = <<>> THEN 0 ELSE q[1] + Base * Value(Tail(q))
Normal(q) == IF q # <<>> /\ q[Len(q)] = 0 THEN Normal(SubSeq(q, 1, Len(q) - 1)) ELSE q
Strings == UNION {[1..k -> Digit] : k \in 1..MaxLen}
(* Within a product, differences are also of words with zeros on top.        *)
Numbers(f) == IF f = "signed" /\ Padded THEN Strings ELSE {q \in Strings : q[Len(q)] # 0}
Min(a, b) == IF a < b THEN a ELSE b
From(q, k) == SubSeq(q, k + 1, Len(q))

Init == /\ op \in Ops /\ x \in Numbers(op) /\ y \in Numbers(op)
        /\ (op = "signed" => Len(x) >= Len(y))
        /\ w = <<>> /\ i = 0 /\ c = 0 /\ n = 0 /\ sign = 1 /\ pc = "start" /\ path = <<op, Len(x), Len(y)>>

Log(t) == path' = Append(path, t)
Go(words, m, s, p) == w' = words /\ n' = m /\ sign' = s /\ pc' = p /\ i' = 1 /\ c' = 0
Fail == pc' = "failed" /\ UNCHANGED <<w, i, c, n, sign>>
(* ------------------------------------------------------------ the start -- *)
Start ==
  /\ pc = "start"
  /\ CASE op = "add" -> Go(x \o From(y, Min(Len(x), Len(y))), Min(Len(x), Len(y)), 1, "plus") /\ Log(IF Len(y) > Len(x) THEN "take" ELSE "keep")
       [] op = "sub" -> (IF Len(x) < Len(y) THEN Fail ELSE Go(x, Len(y), 1, "minus")) /\ Log("")
       [] op = "swap" -> (IF Len(x) < Len(y) THEN Fail ELSE Go(x, Len(y), 1, "minus")) /\ Log("")
       [] op = "signed" ->
            LET lx == Len(Normal(x))  ly == Len(Normal(y))
            IN CASE lx > ly -> Go(x, ly, 1, "minus") /\ Log(">")
                 [] lx < ly -> Go(y, lx, -1, "rminus") /\ Log("<")
                 [] OTHER -> Go(x, lx, 1, "compare") /\ Log("=")
  /\ UNCHANGED <<op, x, y>>
(* Equal words on top become zeros. *)
Compare ==
  /\ pc = "compare"
  /\ IF n = 0 THEN pc' = "done" /\ UNCHANGED <<w, n, sign>> /\ Log("zero")
     ELSE IF x[n] > y[n] THEN pc' = "minus" /\ sign' = 1 /\ UNCHANGED <<w, n>> /\ Log("greater")
     ELSE IF x[n] < y[n]
     THEN /\ pc' = "rminus" /\ sign' = -1 /\ w' = [k \in 1..Len(w) |-> IF k <= n THEN y[k] ELSE w[k]]
          /\ UNCHANGED n /\ Log("less")
     ELSE w' = [w EXCEPT ![n] = 0] /\ n' = n - 1 /\ UNCHANGED <<sign, pc>> /\ Log("same")
  /\ UNCHANGED <<op, x, y, i, c>>
(* ------------------------------------------------------- word by word ---- *)
At(q, k) == IF k <= Len(q) THEN q[k] ELSE 0
Ripple ==
  /\ pc \in {"plus", "minus", "rminus"} /\ i <= n
  /\ LET a == At(x, i)  b == At(y, i)
         z == CASE pc = "plus" -> a + b + c [] pc = "minus" -> a - b - c [] pc = "rminus" -> b - a - c
     IN /\ w' = [w EXCEPT ![i] = z % Base]
        /\ c' = (IF z \in 0..(Base - 1) THEN 0 ELSE 1)
        /\ Log(IF z \in 0..(Base - 1) THEN (IF c = 1 THEN "-0" ELSE "0") ELSE (IF c = 1 THEN "+1" ELSE "1"))
  /\ i' = i + 1 /\ UNCHANGED <<op, x, y, n, sign, pc>>
(* The carry alone, through the rest, until it stops. *)
Rest ==
  /\ pc \in {"plus", "minus", "rminus"} /\ i > n
  /\ IF c = 0 THEN pc' = "done" /\ Log(".") /\ UNCHANGED <<w, i, c>>
     ELSE IF i > Len(w)
     THEN IF pc = "plus" THEN w' = Append(w, 1) /\ c' = 0 /\ pc' = "done" /\ Log("grow") /\ UNCHANGED i
          ELSE pc' = "failed" /\ Log("negative") /\ UNCHANGED <<w, i, c>>
     ELSE LET z == IF pc = "plus" THEN w[i] + 1 ELSE w[i] - 1
              stop == z \in 0..(Base - 1)
          IN /\ w' = [w EXCEPT ![i] = z % Base] /\ i' = i + 1 /\ c' = (IF stop THEN 0 ELSE 1)
             /\ pc' = pc /\ Log(IF stop THEN "stop" ELSE "run")
  /\ UNCHANGED <<op, x, y, n, sign>>
Next == Start \/ Compare \/ Ripple \/ Rest

Correct == /\ pc = "done" => (IF op = "add" THEN Value(w) = Value(x) + Value(y) ELSE sign * Value(w) = Value(x) - Value(y))
           /\ pc = "failed" => op \in {"sub", "swap"} /\ Value(x) < Value(y)
Fits == pc = "done" => Len(w) <= (IF op = "add" THEN 1 + (IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) ELSE Len(x))
===============================================================================
