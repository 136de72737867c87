------------------------------- MODULE GenText --------------------------------
(* The abstract machine's calls on text: every short string over the         *)
(* characters that matter to each parser, every layout of each kind of       *)
(* number, residue and ring.                                                 *)
EXTENDS Ibig, TLC
VARIABLE call

Chars(f) == IF f \in {"prefix_u", "prefix_i"} THEN <<43, 45, 48, 49, 98, 111, 120, 95, 56, 102>>
            ELSE <<43, 45, 48, 49, 95, 57, 97, 90, 120, 32>>
Nth(n, k, m) == (n \div (m ^ k)) % m
String(f, len, n) == [k \in 1..len |-> Chars(f)[Nth(n, k - 1, 10) + 1]]
RECURSIVE Codes(_)
Codes(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "," \o Codes(Tail(s))
Radices == <<2, 10, 16, 36, 35, 3>>
MaxLen(f) == IF f \in {"prefix_u", "prefix_i", "radix_i"} THEN 4 ELSE 3
Takes(f) == IF f \in {"radix_u", "radix_i", "num_u", "num_i"} THEN TRUE ELSE FALSE
Ask(tag, path, text) == call = [path |-> <<tag, path>>, text |-> tag \o " " \o text]
(* The longest strings only where they begin like a number.                  *)
Wanted(s) == IF Len(s) < 4 THEN TRUE ELSE s[1] \in {43, 45, 48}
AskParse ==
  \E f \in ParseOps : \E len \in 0..MaxLen(f) : \E n \in 0..(10 ^ len - 1) :
    LET s == String(f, len, n)
        radix == Radices[(n % 6) + 1]
    IN /\ Wanted(s)
       /\ Ask("parse", <<f, len, n>>,
              f \o "|0|s:" \o Codes(s) \o (IF Takes(f) THEN ";u32:" \o ZText(ZInt(radix)) ELSE ""))
(* One digit in every radix, valid or not. *)
AskDigit ==
  \E f \in {"radix_u", "radix_i"} : \E radix \in 2..36 : \E c \in 0..127 :
    /\ c \in 47..58 \/ c \in 64..91 \/ c \in 96..123 \/ c \in {0, 32, 43, 45, 46, 95, 127}
    /\ (c + radix) % 2 = (IF f = "radix_u" THEN 0 ELSE 1)
    /\ Ask("parse", <<f, "digit", radix, c>>, f \o "|0|s:49," \o ToString(c) \o ";u32:" \o ZText(ZInt(radix)))
(* Radices that do not exist. *)
AskRadix ==
  \E f \in {"radix_u", "radix_i"} : \E radix \in {0, 1, 2, 36, 37, 64, 256} :
    Ask("parse", <<f, "radix", radix>>, f \o "|0|s:49;u32:" \o ZText(ZInt(radix)))

Kinds == <<"d", "D", "b", "o", "x", "X", "r">>
Vals == <<Z0, Z1, ZInt(-1), ZInt(35), ZInt(-255), ZTwo(64), ZNeg(ZSub(ZTwo(64), Z1))>>
Request(kind, radix, flags, width, fill, align) ==
  "c:" \o kind \o ";u32:" \o ZText(ZInt(radix)) \o ";u32:" \o ZText(ZInt(flags)) \o ";u32:" \o ZText(ZInt(width))
  \o ";u32:" \o ZText(ZInt(fill)) \o ";u32:" \o ZText(ZInt(align))
Fills(align) == IF align = 0 THEN {0} ELSE {0, 42, 48, 233}
AskLayout ==
  \E k \in 1..Len(Kinds) : \E v \in 1..Len(Vals) : \E flags \in 0..7 : \E align \in 0..3 : \E fill \in Fills(align) : \E d \in {-1, 0, 1, 2, 5} :
    LET z == Vals[v]
        radix == IF k = 7 THEN <<2, 36, 3, 16, 10>>[((v + flags) % 5) + 1] ELSE 0
        q == [kind |-> Kinds[k], radix |-> radix, flags |-> flags, width |-> 0, fill |-> 0, align |-> 0]
        len == Len(IntText(z, q))
        t == IF z.neg \/ (v + flags) % 2 = 0 THEN "i" ELSE "u"
    IN /\ len + d >= 0
       /\ (k + v + flags + fill + d) % 3 = 0 \/ k = 5 \/ v = 3
       /\ Ask("fmt", <<"fmt", k, v, flags, align, fill, d>>,
              "load|0|" \o t \o ":" \o ZText(z) \o " ~ fmt||r0;" \o Request(Kinds[k], radix, flags, len + d, fill, align))
AskInRadix ==
  \E radix \in 0..38 : \E v \in {1, 2, 4, 5, 7} : \E flags \in {0, 2} :
    Ask("fmt", <<"radix", radix, v, flags>>,
        "load|0|i:" \o ZText(Vals[v]) \o " ~ fmt||r0;" \o Request("r", radix, flags, 0, 0, 0))
(* Residues and rings: a small and a long modulus. *)
Moduli == <<Z1, ZInt(10), ZSub(ZTwo(64), Z1), ZAdd(ZTwo(130), ZInt(7))>>
AskRing ==
  \E k \in 1..6 : \E m \in 1..Len(Moduli) : \E flags \in 0..7 : \E width \in {0, 3, 30} : \E align \in {0, 2} :
    LET r == ZSub(Moduli[m], IF m = 1 THEN Z1 ELSE IF width = 3 THEN ZSub(Moduli[m], ZInt(9)) ELSE Z1)
        q == Request(Kinds[k], 0, flags, width, IF align = 0 THEN 0 ELSE 42, align)
    IN Ask("ring", <<"ring", k, m, flags, width, align>>,
           "load|15|u:" \o ZText(Moduli[m]) \o " ~ ring||r15 ~ load|14|u:" \o ZText(r)
           \o " ~ into|0|g:" \o ToString(0) \o ";r14 ~ fmt||r0;" \o q \o " ~ fmt||g:0;" \o q \o " ~ balance||")

Init == /\ cfg = MkCfg(64, 64, ZTwo(60)) /\ regs = <<>> /\ rings = <<>>
        /\ (AskParse \/ AskDigit \/ AskRadix \/ AskLayout \/ AskInRadix \/ AskRing)
Spec == Init /\ [][UNCHANGED <<vars, call>>]_<<vars, call>>
View == call.path
Export == PrintT("PROGRAM " \o call.text)
=============================================================================
