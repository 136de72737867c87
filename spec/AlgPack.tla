-------------------------------- MODULE AlgPack --------------------------------
(* Words packed into larger units and back, as the library serializes: words *)
(* of the library into the 64-bit words of the format, and bytes into words. *)
(* Unit digits make a word (bytes in a word, or words in a serialized word); *)
(* here the sides are digits in base D, words of Unit digits.                *)
(* Out: the words are cut into chunks, the last may be short; the bytes of   *)
(* the top word that are zero are left out (bytes) or not (words).           *)
(* In: digits from either end, zeros on top not counted towards the limit.   *)
EXTENDS Integers, Sequences
CONSTANTS D, Unit, MaxLen
VARIABLES way, input, rest, out, pc
vars == <<way, input, rest, out, pc>>

RECURSIVE Value(_, _), Normal(_)
Value(s, b) == IF s = <<>> THEN 0 ELSE s[1] + b * Value(Tail(s), b)
Normal(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Normal(SubSeq(s, 1, Len(s) - 1)) ELSE s
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Base == D ^ Unit
Digits(w) == [i \in 1..Unit |-> (w \div D ^ (i - 1)) % D]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Min(a, b) == IF a < b THEN a ELSE b

(* unpack: words to digits.  pack: digits (little end first), packbe.        *)
Init == /\ \/ way \in {"pack", "packbe"} /\ input \in Seqs(0..(D - 1), MaxLen)
           \/ way \in {"unpack", "unpackbe"} /\ input \in {s \in Seqs(0..(Base - 1), MaxLen \div Unit) : Normal(s) = s}
        /\ rest = input /\ out = <<>> /\ pc = "strip"
(* Zeros on top go first. *)
Strip == /\ pc = "strip" /\ way \in {"pack", "packbe"}
         /\ rest' = (IF way = "pack" THEN Normal(input) ELSE Reverse(Normal(Reverse(input))))
         /\ pc' = "chunks" /\ UNCHANGED <<way, input, out>>
(* Whole chunks from the little end, then the partial one. *)
Chunk ==
  /\ pc = "chunks" /\ way \in {"pack", "packbe"}
  /\ IF rest = <<>> THEN pc' = "done" /\ UNCHANGED <<rest, out>>
     ELSE LET k == Min(Unit, Len(rest))
              here == IF way = "pack" THEN SubSeq(rest, 1, k) ELSE Reverse(SubSeq(rest, Len(rest) - k + 1, Len(rest)))
          IN /\ out' = Append(out, Value(here, D))
             /\ rest' = (IF way = "pack" THEN SubSeq(rest, k + 1, Len(rest)) ELSE SubSeq(rest, 1, Len(rest) - k))
             /\ pc' = "chunks"
  /\ UNCHANGED <<way, input>>
Unchunk ==
  /\ pc \in {"strip", "chunks"} /\ way \in {"unpack", "unpackbe"}
  /\ IF rest = <<>> THEN pc' = "done" /\ UNCHANGED <<rest, out>>
     ELSE LET first == rest[1]  top == rest[Len(rest)]
          IN IF way = "unpack"
             THEN /\ out' = out \o (IF Len(rest) = 1 THEN Normal(Digits(first)) ELSE Digits(first))
                  /\ rest' = Tail(rest) /\ pc' = "chunks"
             ELSE /\ out' = out \o (IF pc = "strip" THEN Reverse(Normal(Digits(top))) ELSE Reverse(Digits(top)))
                  /\ rest' = SubSeq(rest, 1, Len(rest) - 1) /\ pc' = "chunks"
  /\ UNCHANGED <<way, input>>
Next == Strip \/ Chunk \/ Unchunk

Correct == pc = "done" =>
  CASE way = "pack" -> Value(out, Base) = Value(input, D)
    [] way = "packbe" -> Value(out, Base) = Value(Reverse(input), D)
    [] way = "unpack" -> Value(out, D) = Value(input, Base)
    [] way = "unpackbe" -> Value(Reverse(out), D) = Value(input, Base)
(* No zero on top on either side, so no number has two forms; and no more    *)
(* words than the value needs, however long the input.                       *)
Least == pc = "done" =>
  CASE way \in {"pack", "packbe", "unpack"} -> Normal(out) = out
    [] way = "unpackbe" -> Normal(Reverse(out)) = Reverse(out)
===============================================================================
