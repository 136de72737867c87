----------------------------- MODULE GenDivHalf ------------------------------
EXTENDS AlgDivHalf, Emit
CONSTANTS Sizes, Tops, Kinds, Keep
(* rhs: low part, middle words, top word.  dividend around q * rhs. *)
Init ==
  \E s \in Sizes : \E t \in Tops : \E x, y \in Kinds : \E u, v \in Kinds :
  \E d \in {"zero", "-1", "r-1"}, o \in {0, 1} :
    LET nn == s[1]
        mm == s[2]
        r == Blocks(<<x, y, t>>, <<nn - mm, mm - 1, 1>>)
        p == ZMul(ZAdd(Blocks(<<u, v>>, <<mm \div 2, mm - mm \div 2>>), ZShl(ZInt(o), mm * WB)), r)
        l == CASE d = "zero" -> p [] d = "-1" -> ZSub(p, Z1) [] OTHER -> ZAdd(p, ZSub(r, Z1))
    IN ZLe(Z0, l) /\ ZLt(l, WordsOf(nn + mm)) /\ Begin(nn, mm, r, l)
Spec == Init /\ [][Next]_vars
(* Path: what the top division and the subtraction left, and the corrections. *)
Export == pc = "done" => Emit(<<n, m, hadcarry, over, fixes, rem = Z0, Slice(q, 0, 1) = Z0, q = Block("max", m)>>, Keep,
                              ZText(whole) \o " " \o ZText(rhs))
GenSizes == {<<34, 33>>, <<67, 33>>, <<99, 33>>}
=============================================================================
