------------------------------- MODULE GenFail --------------------------------
(* Calls that fail, or nearly do.  For every documented failure the abstract *)
(* machine has, each way to bring it about with the other operands at every  *)
(* extreme, and the neighbouring calls that succeed; afterwards the other    *)
(* registers are read back and used.                                         *)
EXTENDS Ibig, TLC
CONSTANT WB
VARIABLE call

W == ZTwo(WB)
Vals == <<Z0, Z1, ZInt(2), ZSub(W, Z1), W, ZSub(ZMul(W, W), Z1), ZMul(W, W), ZAdd(ZTwo(5 * WB + 3), ZInt(12))>>
Signs(t) == IF t = "u" THEN {FALSE} ELSE BOOLEAN
Ld(r, t, z) == "load|" \o ToString(r) \o "|" \o t \o ":" \o ZText(z) \o " ~ "
(* The rest of the registers: values and one call that uses them. *)
After(t) == " ~ get||r8 ~ get||r9 ~ add|10|r8;r9 ~ get||r8"
Rest(t) == Ld(8, t, ZSub(ZMul(W, W), ZInt(3))) \o Ld(9, t, W)
Ask(tag, path, t, text) ==
  call = [path |-> <<tag, path>>, text |-> tag \o " " \o Rest(t) \o text \o After(t) \o (IF tag = "ring" THEN " ~ balance||" ELSE "")]
Operands == <<"v0;v1", "v0;r1", "r0;v1", "r0;r1">>
Kept(form) == (IF form \in {"r0;v1", "r0;r1"} THEN " ~ get||r0" ELSE "")
              \o (IF form \in {"v0;r1", "r0;r1"} THEN " ~ get||r1" ELSE "")
Neg(z, n) == IF n THEN ZNeg(z) ELSE z

(* Division by zero and by its neighbours. *)
FailDivision ==
  \E f \in DivisionOps : \E t \in {"u", "i"} : \E k \in 1..Len(Vals) : \E n \in Signs(t) : \E m \in 1..4 : \E d \in {0, 1} :
    /\ d = 0 \/ (m + k) % 4 = 0
    /\ Ask("zero", <<f, t, k, n, m, d>>, t,
           Ld(0, t, Neg(Vals[k], n)) \o Ld(1, t, ZInt(d)) \o f \o "|2" \o (IF f \in {"divrem", "divreme"} THEN ",3" ELSE "")
           \o "|" \o Operands[m] \o Kept(Operands[m]))
FailAssign ==
  \E f \in {"div", "rem"} : \E t \in {"u", "i"} : \E k \in 1..Len(Vals) : \E m \in {"v1", "r1"} :
    Ask("zero", <<f, t, k, "assign", m>>, t,
        Ld(0, t, Vals[k]) \o Ld(1, t, Z0) \o f \o "||w0;" \o m \o (IF m = "r1" THEN " ~ get||r1" ELSE ""))
(* Unsigned results below zero by one, and by everything. *)
FailSubtraction ==
  \E k \in 1..Len(Vals) : \E d \in {Z1, W, Vals[Len(Vals)]} : \E m \in 1..6 : \E back \in BOOLEAN :
    LET x == Vals[k]
        y == ZAdd(Vals[k], d)
        form == IF m <= 4 THEN Operands[m] ELSE IF m = 5 THEN "w0;v1" ELSE "w0;r1"
    IN Ask("below", <<k, d, m, back>>, "u",
           Ld(0, "u", IF back THEN y ELSE x) \o Ld(1, "u", IF back THEN x ELSE y) \o "sub|" \o (IF m <= 4 THEN "2" ELSE "") \o "|" \o form
           \o Kept(form))
(* gcd of zeros. *)
FailGcd ==
  \E f \in {"gcd", "egcd"} : \E t \in {"u"} : \E x, y \in {Z0, Z1, W, ZMul(W, W)} :
    Ask("gcd", <<f, x, y>>, t,
        Ld(0, t, x) \o Ld(1, t, y) \o f \o "|" \o (IF f = "gcd" THEN "2" ELSE "2,3,4") \o "|r0;r1 ~ get||r0 ~ get||r1")
(* Radices that do not exist, whatever the text or the number. *)
BadRadices == {0, 1, 2, 36, 37, 38, 64, 100, 256, 266, 65546}
TextsS == {"", "43", "45", "48", "49", "43,49", "45,49", "43,45", "33", "122", "48,120,49", "195,169", "49,95"}
FailRadix ==
  \/ \E f \in {"radix_u", "radix_i", "num_u", "num_i"} : \E s \in TextsS : \E r \in BadRadices :
       Ask("radix", <<f, s, r>>, "u", f \o "|0|s:" \o s \o ";u32:" \o ZText(ZInt(r)))
  \/ \E t \in {"u", "i"} : \E k \in 1..Len(Vals) : \E r \in BadRadices : \E flags \in {0, 1, 2, 4, 7} : \E width \in {0, 40} :
       /\ (k + r + flags) % 3 = 0 \/ k = 1
       /\ Ask("radix", <<"fmt", t, k, r, flags, width>>, t,
              Ld(0, t, Vals[k]) \o "fmt||r0;c:r;u32:" \o ZText(ZInt(r)) \o ";u32:" \o ToString(flags) \o ";u32:" \o ZText(ZInt(width))
              \o ";u32:0;u32:0 ~ get||r0")
(* Rings: no ring of modulus zero; no inverse; never two rings in one call.  *)
Moduli == <<Z1, ZInt(2), ZInt(12), ZSub(W, Z1), W, ZSub(ZMul(W, W), Z1), ZMul(W, W), ZTwo(5 * WB + 3)>>
Elem(z, m) == ZMod(z, m)
FailRing ==
  \/ \E t \in {"u"} : Ask("ring", <<"zero">>, t, Ld(0, t, Z0) \o "ring||r0 ~ get||r0 ~ ring||r8 ~ modulus|10|g:0")
  \/ \E m \in 1..Len(Moduli) : \E e \in {Z0, Z1, ZInt(2), ZInt(3), ZNeg(Z1), ZTwo(WB - 1)} : \E c \in 1..7 :
       LET what == <<"inv|6|r4", "div|6|r5;r4", "div|6|v5;r4", "div|6|r5;v4", "div||w5;r4", "mpows|6|r4;i:-1", "mpows|6|r4;i:-8">>[c]
       IN Ask("ring", <<m, e, c>>, "u",
              Ld(0, "u", Moduli[m]) \o "ring||r0 ~ " \o Ld(1, "i", e) \o Ld(2, "i", ZInt(-2)) \o Ld(3, "i", IF c = 7 THEN ZInt(-8) ELSE ZInt(-1))
              \o "into|4|g:0;r1 ~ into|5|g:0;r2 ~ "
              \o (IF c = 6 \/ c = 7 THEN "mpows|6|r4;r3" ELSE what)
              \o (IF c = 4 THEN "" ELSE " ~ residue|7|r4") \o (IF c = 3 \/ c = 5 THEN "" ELSE " ~ residue|7|r5"))
  \/ \E m \in 1..Len(Moduli) : \E n \in 1..Len(Moduli) : \E f \in {"add", "sub", "mul", "div"} : \E c \in 1..6 :
       /\ n \in {m, (m % Len(Moduli)) + 1}
       /\ LET forms == <<"r4;r5", "v4;r5", "r4;v5", "v4;v5", "w4;r5", "w4;v5">>
              form == forms[c]
          IN Ask("ring", <<"mixed", m, n, f, c>>, "u",
                 Ld(0, "u", Moduli[m]) \o "ring||r0 ~ " \o Ld(1, "u", Moduli[n]) \o "ring||r1 ~ "
                 \o Ld(2, "u", Z1) \o "into|4|g:0;r2 ~ into|5|g:1;r2 ~ " \o f \o "|" \o (IF c <= 4 THEN "6" ELSE "") \o "|" \o form
                 \o (IF c \in {1, 3} THEN " ~ residue|7|r4" ELSE "") \o (IF c \in {1, 2, 5} THEN " ~ residue|7|r5" ELSE ""))
  \/ \E m \in 1..Len(Moduli) : \E e \in {Z0, Z1} : \E same \in BOOLEAN :
       Ask("ring", <<"eq", m, e, same>>, "u",
           Ld(0, "u", Moduli[m]) \o "ring||r0 ~ ring||r0 ~ " \o Ld(2, "u", e) \o "into|4|g:0;r2 ~ into|5|g:" \o (IF same THEN "0" ELSE "1")
           \o ";r2 ~ meq||r4;r5 ~ residue|6|r4 ~ residue|7|r5")
(* Lengths beyond every limit. *)
FarCounts == {ZSub(ZTwo(32), Z1), ZTwo(31), ZSub(ZTwo(32), ZInt(WB)), ZTwo(30)}
FailLimit ==
  \/ \E f \in {"shl", "setbit", "pow"} : \E t \in {"u", "i"} : \E k \in 1..Len(Vals) : \E c \in FarCounts : \E m \in {"v0", "r0", "w0"} :
       /\ f = "setbit" => t = "u" /\ m = "w0"
       /\ f = "pow" => m = "r0"
       /\ WB = 16 \/ f # "pow" \/ ZBitLen(Vals[k]) <= 1
       /\ WB = 16 \/ (f = "shl" /\ Vals[k] = Z0)  \/ f = "pow" \* elsewhere these can be built
       /\ Ask("limit", <<f, t, k, c, m>>, t,
              Ld(0, t, Vals[k]) \o f \o "|" \o (IF m = "w0" THEN "" ELSE "2") \o "|" \o m \o ";usize:" \o ZText(c)
              \o (IF m = "r0" THEN " ~ get||r0" ELSE ""))
(* Samples of nothing. *)
FailSample ==
  \E t \in {"u", "i"} : \E k \in 1..Len(Vals) : \E d \in {-1, 0, 1, 2} : \E incl \in {0, 1} : \E how \in 0..2 : \E n \in Signs(t) :
    LET lo == Neg(Vals[k], n)
        hi == ZAdd(lo, ZInt(d))
    IN /\ t = "u" => ~hi.neg
       /\ Ask("sample", <<t, k, d, incl, how, n>>, t,
              Ld(0, t, lo) \o Ld(1, t, hi) \o "sample|2|r0;r1;usize:" \o ToString(incl) \o ";usize:" \o ToString(how)
              \o ";usize:1;usize:" \o ToString(k) \o " ~ get||r0 ~ get||r1")
(* Values that do not fit, in every form of conversion. *)
FailConvert ==
  \E f \in ConvOps \cup {"i2u"} : \E k \in 1..Len(Vals) : \E n \in BOOLEAN : \E m \in {"v0", "r0"} :
    Ask("convert", <<f, k, n, m>>, "i",
        Ld(0, "i", Neg(Vals[k], n)) \o f \o "|" \o (IF f = "i2u" THEN "2" ELSE "") \o "|" \o m \o (IF m = "r0" THEN " ~ get||r0" ELSE ""))

Init == /\ cfg = MkCfg(WB, 64, ZTwo(60)) /\ regs = <<>> /\ rings = <<>>
        /\ (FailDivision \/ FailAssign \/ FailSubtraction \/ FailGcd \/ FailRadix \/ FailRing \/ FailLimit \/ FailSample \/ FailConvert)
Spec == Init /\ [][UNCHANGED <<vars, call>>]_<<vars, call>>
View == call.path
Export == PrintT("PROGRAM " \o call.text)
=============================================================================
