------------------------------- MODULE GenPrim --------------------------------
(* The abstract machine's mixed calls: every operation between a big integer *)
(* and every primitive type, on both sides, by value, by reference and       *)
(* assigning, at the boundary values of the type.                            *)
EXTENDS Ibig, TLC
CONSTANT WB
VARIABLE call

PrimList == <<"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize">>
SignedPrim(p) == p \in SignedPrims
(* usize is taken at its narrowest: the programs are for every target.       *)
Width(p) == CASE p \in {"u8", "i8"} -> 8 [] p \in {"u16", "i16"} -> 16 [] p \in {"u32", "i32", "usize", "isize"} -> 32
              [] p \in {"u64", "i64"} -> 64 [] OTHER -> 128
Max(p) == ZSub(ZTwo(IF SignedPrim(p) THEN Width(p) - 1 ELSE Width(p)), Z1)
PVals(p) == IF SignedPrim(p) THEN <<Max(p), ZSub(ZNeg(Max(p)), Z1), ZInt(-1), Z0, Z1, ZInt(7), ZNeg(Max(p))>>
            ELSE <<Max(p), Z0, Z1, ZInt(7), ZSub(Max(p), Z1)>>
W == ZTwo(WB)
BVals(p) == <<Z0, Z1, Max(p), ZAdd(Max(p), Z1), ZSub(W, Z1), W, ZSub(ZMul(W, W), Z1), ZMul(ZMul(W, W), W)>>
NBig(t) == IF t = "u" THEN 8 ELSE 15
Big(t, p, k) == IF k <= 8 THEN BVals(p)[k] ELSE ZNeg(BVals(p)[k - 7])

Ops == <<"add", "sub", "mul", "div", "rem", "divrem", "dive", "reme", "divreme", "and", "or", "xor", "andnot">>
HasAssign(f) == f \in {"add", "sub", "mul", "div", "rem", "and", "or", "xor"}
PrimFirst(f, t) == f \in {"add", "mul", "and", "or", "xor"} \/ (f = "sub" /\ t = "i")
(* Forms: which side, how the big integer and how the primitive are passed.  *)
Forms(f, t) ==
  << <<"b", "v", ":">>, <<"b", "r", ":">>, <<"b", "v", "&">>, <<"b", "r", "&">> >>
  \o (IF HasAssign(f) THEN << <<"b", "w", ":">>, <<"b", "w", "&">> >> ELSE <<>>)
  \o (IF PrimFirst(f, t) THEN << <<"p", "v", ":">>, <<"p", "r", ":">>, <<"p", "v", "&">>, <<"p", "r", "&">> >> ELSE <<>>)
Dest(f, m) == IF m = "w" THEN "" ELSE IF f \in {"divrem", "divreme"} THEN "1,2" ELSE "1"

Init ==
  /\ cfg = MkCfg(WB, 64, ZTwo(60)) /\ regs = <<>> /\ rings = <<>>
  /\ \E k \in 1..Len(Ops) : \E t \in {"u", "i"} : \E n \in 1..Len(PrimList) :
     LET f == Ops[k]
         p == PrimList[n]
         fs == Forms(f, t)
     IN \E i \in 1..NBig(t) : \E j \in 1..Len(PVals(p)) : \E q \in 1..Len(fs) :
        /\ \/ q = ((i + j + k + n) % Len(fs)) + 1
           \/ i \in {2, 7, 14} /\ j \in {1, 2, 4}
        /\ LET x == Big(t, p, i)
               y == PVals(p)[j]
               big == fs[q][2] \o "0"
               pr == p \o fs[q][3] \o ZText(y)
           IN call = [path |-> <<f, t, p, i, j, q>>,
                      text |-> "load|0|" \o t \o ":" \o ZText(x) \o " ~ " \o f \o "|" \o Dest(f, fs[q][2]) \o "|"
                               \o (IF fs[q][1] = "b" THEN big \o ";" \o pr ELSE pr \o ";" \o big)]
Spec == Init /\ [][UNCHANGED <<vars, call>>]_<<vars, call>>
View == call.path
Export == PrintT("PROGRAM " \o call.text)
=============================================================================
