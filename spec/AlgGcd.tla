-------------------------------- MODULE AlgGcd --------------------------------
(* The extended binary algorithm as the library runs it, one step of its     *)
(* loops at a time.  All quantities are natural numbers:                     *)
(*   a = ax * u - ay * v,  b = bx * u - by * v,  ax, bx <= v,  ay, by <= u.  *)
EXTENDS Integers, Sequences, BigZ
VARIABLES x, y, zeros, u, v, a, b, ax, ay, bx, by, pc, steps
vars == <<x, y, zeros, u, v, a, b, ax, ay, bx, by, pc, steps>>

Begin(p, q) ==
  /\ x = p /\ y = q /\ zeros = 0 /\ u = Z0 /\ v = Z0 /\ a = Z0 /\ b = Z0
  /\ ax = Z0 /\ ay = Z0 /\ bx = Z0 /\ by = Z0 /\ pc = "begin" /\ steps = {}
Min(m, n) == IF m < n THEN m ELSE n

Trivial ==
  /\ pc = "begin" /\ (x = Z0 \/ y = Z0) /\ ~(x = Z0 /\ y = Z0)
  /\ pc' = "done" /\ b' = (IF x = Z0 THEN y ELSE x)
  /\ bx' = (IF x = Z0 THEN Z0 ELSE Z1) /\ by' = (IF x = Z0 THEN Z1 ELSE Z0)
  /\ steps' = {<<IF x = Z0 THEN "left zero" ELSE "right zero">>}
  /\ UNCHANGED <<x, y, zeros, u, v, a, ax, ay>>
Euclid ==
  /\ pc = "begin" /\ x # Z0 /\ y # Z0 /\ pc' = "odd"
  /\ LET z == Min(ZTz(x), ZTz(y))
         p == ZShrFloor(x, z)
         q == ZShrFloor(y, z)
     IN /\ zeros' = z /\ u' = p /\ v' = q
        /\ IF ZLe(p, q)
           THEN /\ a' = p /\ ax' = Z1 /\ ay' = Z0
                /\ b' = ZRemT(q, p) /\ bx' = ZSub(q, ZDivT(q, p)) /\ by' = ZSub(p, Z1)
           ELSE /\ a' = q /\ ax' = q /\ ay' = ZSub(p, Z1)
                /\ b' = ZRemT(p, q) /\ bx' = Z1 /\ by' = ZDivT(p, q)
        /\ steps' = {<<IF ZLt(p, q) THEN "less" ELSE IF p = q THEN "equal" ELSE "more", IF z = 0 THEN "odd" ELSE "even">>}
  /\ UNCHANGED <<x, y>>
Swap == /\ a' = b /\ b' = a /\ ax' = bx /\ bx' = ax /\ ay' = by /\ by' = ay
MakeOdd ==
  /\ pc = "odd" /\ pc' = "loop"
  /\ IF ZOdd(b) THEN UNCHANGED <<a, b, ax, ay, bx, by>> /\ steps' = steps \cup {<<"b odd">>}
     ELSE Swap /\ steps' = steps \cup {<<IF b = Z0 THEN "b zero" ELSE "b even">>}
  /\ UNCHANGED <<x, y, zeros, u, v>>
Average(p, q) == ZAdd(ZAdd(ZShrFloor(p, 1), ZShrFloor(q, 1)), IF ZOdd(p) THEN Z1 ELSE Z0)
Halve ==
  /\ pc = "loop" /\ a # Z0 /\ ~ZOdd(a)
  /\ a' = ZShrFloor(a, 1)
  /\ IF ZOdd(ax) \/ ZOdd(ay)
     THEN ax' = Average(ax, v) /\ ay' = Average(ay, u)
     ELSE ax' = ZShrFloor(ax, 1) /\ ay' = ZShrFloor(ay, 1)
  /\ steps' = steps \cup {<<"halve", ZOdd(ax), ZOdd(ay), ZOdd(u), ZOdd(v)>>}
  /\ UNCHANGED <<x, y, zeros, u, v, b, bx, by, pc>>
Order ==
  /\ pc = "loop" /\ a # Z0 /\ ZOdd(a) /\ pc' = "subtract"
  /\ IF ZLt(a, b) THEN Swap /\ steps' = steps \cup {<<"swap">>} ELSE UNCHANGED <<a, b, ax, ay, bx, by, steps>>
  /\ UNCHANGED <<x, y, zeros, u, v>>
Subtract ==
  /\ pc = "subtract" /\ pc' = "loop" /\ a' = ZSub(a, b)
  /\ IF ZLt(ax, bx)
     THEN ax' = ZSub(v, ZSub(bx, ax)) /\ ay' = ZSub(u, ZSub(by, ay))
     ELSE ax' = ZSub(ax, bx) /\ ay' = ZSub(ay, by)
  /\ steps' = steps \cup {<<"subtract", IF ZLt(ax, bx) THEN "wrap" ELSE IF ax = bx THEN "equal" ELSE "plain",
                            IF a = b THEN "last" ELSE "more">>}
  /\ UNCHANGED <<x, y, zeros, u, v, b, bx, by>>
Finish ==
  /\ pc = "loop" /\ a = Z0 /\ pc' = "done"
  /\ b' = ZShl(b, zeros) /\ by' = ZNeg(by)
  /\ UNCHANGED <<x, y, zeros, u, v, a, ax, ay, bx, steps>>
Next == Trivial \/ Euclid \/ MakeOdd \/ Halve \/ Order \/ Subtract \/ Finish

Within(p, q) == ZLe(Z0, p) /\ ZLe(p, q)
(* No intermediate value exceeds the inputs, and none is negative.           *)
Bounded == pc \in {"odd", "loop", "subtract"} =>
  /\ Within(ax, v) /\ Within(bx, v) /\ Within(ay, u) /\ Within(by, u) /\ ZLe(Z0, a) /\ ZLe(Z0, b)
  /\ a = ZSub(ZMul(ax, u), ZMul(ay, v)) /\ b = ZSub(ZMul(bx, u), ZMul(by, v))
OddB == pc \in {"loop", "subtract"} => ZOdd(b)
SameGcd == pc \in {"odd", "loop", "subtract"} => ZShl(IF a = Z0 THEN b ELSE ZGcd(a, b), zeros) = ZGcd(x, y)
(* Every halving is exact. *)
Exact == pc = "loop" /\ a # Z0 /\ ~ZOdd(a) =>
  IF ZOdd(ax) \/ ZOdd(ay) THEN ZOdd(ax) = ZOdd(v) /\ ZOdd(ay) = ZOdd(u) ELSE TRUE
Up1(z) == IF z = Z0 THEN Z1 ELSE z
Correct == pc = "done" =>
  /\ b = ZGcd(x, y) /\ ZAdd(ZMul(bx, x), ZMul(by, y)) = b
  /\ ZLe(ZAbs(bx), Up1(y)) /\ ZLe(ZAbs(by), Up1(x))
===============================================================================
