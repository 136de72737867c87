------------------------------ MODULE GenKnuth -------------------------------
(* Inputs at the library's own word size, by the path they take through      *)
(* algorithm D: dividends at and around multiples of divisors whose words    *)
(* are extreme.                                                              *)
EXTENDS AlgKnuth, Emit
CONSTANTS Sizes, Tops, Kinds, Keep
Singles(k) == [i \in 1..k |-> 1]
Init ==
  \E s \in Sizes : \E t \in Tops : \E x \in [1..(s[1] - 1) -> Kinds] : \E y \in [1..(s[2] - s[1]) -> Kinds] :
  \E d \in {"zero", "-1", "r-1", "r/2", "high"} :
    LET r == Blocks(Append(x, t), Singles(s[1]))
        p == ZMul(Blocks(y, Singles(s[2] - s[1])), r)
        l == CASE d = "zero" -> p [] d = "-1" -> ZSub(p, Z1) [] d = "r-1" -> ZAdd(p, ZSub(r, Z1))
               [] d = "r/2" -> ZAdd(p, ZShrFloor(r, 1)) [] OTHER -> ZAdd(p, WordsOf(s[1] - 1))
    IN ZLe(Z0, l) /\ ZLt(l, WordsOf(s[2])) /\ Begin(s[1], s[2], r, l)
Spec == Init /\ [][Next]_vars
Export == pc = "done" => Emit(<<n, m, top, path>>, Keep, ZText(whole) \o " " \o ZText(rhs))
GenSizes == {<<2, 3>>, <<2, 4>>, <<3, 4>>, <<3, 5>>}
=============================================================================
