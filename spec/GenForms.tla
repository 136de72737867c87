------------------------------ MODULE GenForms -------------------------------
(* The abstract machine's calls, one by one: every operation on every pair   *)
(* of boundary values, in every operand form, and every conversion at both   *)
(* sides of every boundary.  The outcome the machine expects is part of the  *)
(* path, so that each outcome is asked for too.                              *)
EXTENDS Ibig, TLC
CONSTANT WB
VARIABLE call

W == ZTwo(WB)
Mags == <<Z0, Z1, ZSub(W, Z1), W, ZSub(ZMul(W, W), Z1), ZSub(ZMul(W, W), W), ZTwo(2 * WB - 1), ZMul(W, W),
          ZSub(ZMul(ZMul(W, W), W), Z1)>>
Signed(k) == IF k <= Len(Mags) THEN Mags[k] ELSE ZNeg(Mags[k - Len(Mags) + 1])
NVal(t) == IF t = "u" THEN Len(Mags) ELSE 2 * Len(Mags) - 1
Val(t, k) == IF t = "u" THEN Mags[k] ELSE Signed(k)
(* One value of each length for the full table of forms. *)
Typical(t) == {k \in 1..NVal(t) : ZAbs(Val(t, k)) \in {Z0, Z1, ZSub(W, Z1), W, ZSub(ZMul(W, W), Z1), ZMul(W, W)}}
Ops == <<"add", "sub", "mul", "div", "rem", "divrem", "dive", "reme", "divreme", "and", "or", "xor", "andnot">>
Forms == <<"v0;v1", "v0;r1", "r0;v1", "r0;r1", "w0;v1", "w0;r1">>
HasAssign(f) == f \in {"add", "sub", "mul", "div", "rem", "and", "or", "xor"}
Dest(f, form) == IF form \in {"w0;v1", "w0;r1"} THEN "" ELSE IF f \in {"divrem", "divreme"} THEN "2,3" ELSE "2"
Load(r, t, z) == "load|" \o ToString(r) \o "|" \o t \o ":" \o ZText(z) \o " ~ "

Machine == /\ cfg = MkCfg(WB, 64, ZTwo(60)) /\ regs = <<>> /\ rings = <<>>
Ask(tag, path, text) == call = [tag |-> tag, path |-> path, text |-> text]

AskBinary ==
  \E k \in 1..Len(Ops) : \E t \in {"u", "i"} : \E i, j \in 1..NVal(t) : \E n \in 1..Len(Forms) :
    LET f == Ops[k]
        x == Val(t, i)
        y == Val(t, j)
        assign == n > 4
        e == Expect(f, <<V(t, x), V(t, y)>>, assign)
    IN /\ f = "andnot" => ~x.neg  \* all the same
       /\ n > 4 => HasAssign(f)
       /\ \/ n = ((i + j + k) % (IF HasAssign(f) THEN 6 ELSE 4)) + 1
          \/ i \in Typical(t) /\ j \in Typical(t)
       /\ Ask(f, <<f, t, IF n = ((i + j + k) % (IF HasAssign(f) THEN 6 ELSE 4)) + 1 THEN <<i, j>> ELSE
                         <<n, Words(x, WB), x.neg, Words(y, WB), y.neg, e.o>>>>,
              Load(0, t, x) \o Load(1, t, y) \o f \o "|" \o Dest(f, Forms[n]) \o "|" \o Forms[n])

(* The same object on both sides. *)
AskSame ==
  \E k \in 1..Len(Ops) : \E t \in {"u", "i"} : \E i \in 1..NVal(t) :
    Ask(Ops[k], <<Ops[k], t, i, "same">>,
        Load(0, t, Val(t, i)) \o Ops[k] \o "|" \o Dest(Ops[k], "r0;r0") \o "|r0;r0")

Counts == {0, 1, WB - 1, WB, WB + 1, 2 * WB - 1, 2 * WB, 2 * WB + 1, 3 * WB - 1, 3 * WB, 5 * WB + 3}
AskShift ==
  \E f \in {"shl", "shr"} : \E t \in {"u", "i"} : \E i \in 1..NVal(t) : \E c \in Counts : \E form \in {"v0", "r0", "w0"} :
    /\ form = <<"v0", "r0", "w0">>[((i + c) % 3) + 1] \/ i \in Typical(t)
    /\ Ask(f, <<f, t, i, c, form>>,
           Load(0, t, Val(t, i)) \o f \o "|" \o (IF form = "w0" THEN "" ELSE "2") \o "|" \o form \o ";usize:" \o ZText(ZInt(c)))
AskBit ==
  \E f \in {"bit", "setbit", "clearbit"} : \E i \in 1..NVal("u") : \E c \in Counts :
    Ask(f, <<f, i, c>>,
        Load(0, "u", Val("u", i)) \o f \o "||" \o (IF f = "bit" THEN "r0" ELSE "w0") \o ";usize:" \o ZText(ZInt(c)))
AskUnary ==
  \E f \in {"neg", "not", "abs", "uabs", "signum"} : \E i \in 1..NVal("i") : \E form \in {"v0", "r0"} :
    /\ f \in {"abs", "uabs", "signum"} => form = "r0"
    /\ Ask(f, <<f, i, form>>, Load(0, "i", Val("i", i)) \o f \o "|2|" \o form)

Bounds == {0, 7, 8, 15, 16, 23, 24, 31, 32, 33, 52, 53, 63, 64, 65, 127, 128, 129, WB - 1, WB, 2 * WB}
AskConvert ==
  \E f \in ConvOps \cup {"i2u", "f32", "f64"} : \E t \in {"u", "i"} : \E b \in Bounds : \E d \in {-1, 0, 1} : \E neg \in BOOLEAN :
    LET z == ZAdd(ZTwo(b), ZInt(d))
        x == IF neg THEN ZNeg(z) ELSE z
    IN /\ neg => t = "i"
       /\ f = "i2u" => t = "i"
       /\ Ask(f, <<f, t, x>>, Load(0, t, x) \o f \o "||r0")
(* Rounding at every place: significands around a tie, exponents up to the   *)
(* limit of the format.                                                      *)
AskFloat ==
  \E f \in {"f32", "f64"} : \E e \in {0, 1, 2, WB - 1, WB, 40, 75, 103, 104, 105, 300, 970, 971, 972} :
  \E top \in {"low", "even", "odd", "max"} : \E half \in {-1, 0, 1} : \E far \in {0, 1} :
    LET p == IF f = "f32" THEN 24 ELSE 53
        s == CASE top = "low" -> ZTwo(p - 1) [] top = "even" -> ZAdd(ZTwo(p - 1), ZInt(2))
               [] top = "odd" -> ZAdd(ZTwo(p - 1), Z1) [] OTHER -> ZSub(ZTwo(p), Z1)
        z == ZAdd(ZShl(s, e), IF e = 0 THEN Z0 ELSE ZAdd(ZTwo(e - 1), ZInt(IF half = 0 THEN 0 ELSE IF far = 0 THEN half ELSE 0)))
        x == IF e > 2 /\ far = 1 /\ half # 0 THEN ZAdd(z, ZMul(ZInt(half), ZTwo(e - 2))) ELSE z
    IN Ask(f, <<f, x>>, Load(0, "i", IF top = "odd" THEN ZNeg(x) ELSE x) \o f \o "||r0")

Init == Machine /\ (AskBinary \/ AskSame \/ AskShift \/ AskBit \/ AskUnary \/ AskConvert \/ AskFloat)
Spec == Init /\ [][UNCHANGED <<vars, call>>]_<<vars, call>>
(* One program per path. *)
View == call.path
Export == PrintT("PROGRAM " \o call.tag \o " " \o call.text)
=============================================================================
