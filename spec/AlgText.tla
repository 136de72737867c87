------------------------------- MODULE AlgText --------------------------------
(* How long numbers are read and printed in a radix that is not a power of   *)
(* two.  Reading: groups of digits that fit a word, chunks of ReadChunk      *)
(* groups, halves joined by precomputed powers.  Printing: the number is     *)
(* divided by ever smaller precomputed powers into a top part and big parts, *)
(* each big part is halved down to chunks of PrintChunk groups.              *)
EXTENDS Integers, Sequences
CONSTANTS WB, ReadChunk, PrintChunk
VARIABLES radix, text, pc, value, powers, rest, parts, out, width
vars == <<radix, text, pc, value, powers, rest, parts, out, width>>

W == 2 ^ WB
RECURSIVE Fits(_, _)
Fits(r, k) == IF r ^ (k + 1) < W THEN Fits(r, k + 1) ELSE k
D(r) == Fits(r, 0)
Range(r) == r ^ D(r)
RECURSIVE Size(_)
Size(n) == IF n = 0 THEN 0 ELSE 1 + Size(n \div W)

(* ------------------------------------------------------------- reading --- *)
RECURSIVE Word(_, _)
Word(s, r) == IF s = <<>> THEN 0 ELSE Word(SubSeq(s, 1, Len(s) - 1), r) * r + s[Len(s)]
(* The first group may be short, the others have D digits. *)
RECURSIVE Groups(_, _)
Groups(s, r) ==
  IF Len(s) <= D(r) THEN Word(s, r)
  ELSE Groups(SubSeq(s, 1, Len(s) - D(r)), r) * Range(r) + Word(SubSeq(s, Len(s) - D(r) + 1, Len(s)), r)
ChunkLen(r) == ReadChunk * D(r)
RECURSIVE Levels(_, _, _)
Levels(n, r, k) == IF ChunkLen(r) <= ((n - 1) \div 2 ^ k) THEN Levels(n, r, k + 1) ELSE k
RECURSIVE Power(_, _)
Power(r, k) == IF k = 1 THEN Range(r) ^ ReadChunk ELSE Power(r, k - 1) * Power(r, k - 1)
RECURSIVE Halves(_, _, _)
Halves(s, r, k) ==
  IF k = 0 THEN Groups(s, r)
  ELSE LET low == ChunkLen(r) * 2 ^ (k - 1)
       IN IF Len(s) <= low THEN Halves(s, r, k - 1)
          ELSE Halves(SubSeq(s, 1, Len(s) - low), r, k - 1) * Power(r, k) + Halves(SubSeq(s, Len(s) - low + 1, Len(s)), r, k - 1)
(* A chunk never outgrows its buffer: one word per group. *)
Room(s, r) == Size(Groups(s, r)) <= (Len(s) + D(r) - 1) \div D(r)

Begin(r, s) ==
  /\ radix = r /\ text = s /\ pc = "read" /\ value = 0 /\ powers = <<>> /\ rest = 0 /\ parts = <<>> /\ out = <<>> /\ width = 0
ReadWord ==
  /\ pc = "read" /\ Len(text) <= D(radix) /\ pc' = "print" /\ value' = Word(text, radix)
  /\ UNCHANGED <<radix, text, powers, rest, parts, out, width>>
ReadChunks ==
  /\ pc = "read" /\ Len(text) > D(radix) /\ Len(text) <= ChunkLen(radix) /\ pc' = "print" /\ value' = Groups(text, radix)
  /\ UNCHANGED <<radix, text, powers, rest, parts, out, width>>
ReadLarge ==
  /\ pc = "read" /\ Len(text) > ChunkLen(radix) /\ pc' = "print"
  /\ value' = Halves(text, radix, Levels(Len(text), radix, 1))
  /\ UNCHANGED <<radix, text, powers, rest, parts, out, width>>

(* ------------------------------------------------------------ printing --- *)
RECURSIVE Padded(_, _, _)
Padded(n, r, k) == IF n = 0 /\ k <= 0 THEN <<>> ELSE Append(Padded(n \div r, r, k - 1), n % r)
RECURSIVE LowGroups(_, _, _)
LowGroups(n, r, k) == IF k = 0 THEN <<>> ELSE LowGroups(n \div Range(r), r, k - 1) \o Padded(n % Range(r), r, D(r))
RECURSIVE Peeled(_, _)
Peeled(n, r) == IF n < W THEN 0 ELSE 1 + Peeled(n \div Range(r), r)
RECURSIVE Top(_, _)
Top(n, r) == IF n < W THEN n ELSE Top(n \div Range(r), r)
Medium(n, r) == Padded(Top(n, r), r, 1) \o LowGroups(n, r, Peeled(n, r))
Part(r) == Range(r) ^ PrintChunk
RECURSIVE Big(_, _, _)
Big(n, r, k) ==
  IF k = 0 THEN LowGroups(n, r, PrintChunk)
  ELSE LET p == Part(r) ^ (2 ^ (k - 1)) IN Big(n \div p, r, k - 1) \o Big(n % p, r, k - 1)

PrintSmall ==
  /\ pc = "print" /\ value < W /\ pc' = "done" /\ out' = Padded(value, radix, 1) /\ width' = Len(out')
  /\ UNCHANGED <<radix, text, value, powers, rest, parts>>
(* Decided from the number of words alone. *)
Short(n, r) == Size(n) * (D(r) + 1) <= PrintChunk * D(r)
PrintMedium ==
  /\ pc = "print" /\ value >= W /\ Short(value, radix)
  /\ pc' = "done" /\ out' = Medium(value, radix) /\ width' = Len(Padded(Top(value, radix), radix, 1)) + Peeled(value, radix) * D(radix)
  /\ UNCHANGED <<radix, text, value, powers, rest, parts>>
PrintLarge ==
  /\ pc = "print" /\ value >= W /\ ~Short(value, radix)
  /\ IF Part(radix) > value THEN pc' = "top" /\ powers' = <<>> ELSE pc' = "powers" /\ powers' = <<Part(radix)>>
  /\ rest' = value
  /\ UNCHANGED <<radix, text, value, parts, out, width>>
MorePowers ==
  /\ pc = "powers"
  /\ LET p == powers[Len(powers)]
     IN IF 2 * Size(p) - 1 > Size(value) \/ p * p > value THEN pc' = "divide" /\ UNCHANGED powers
        ELSE pc' = "powers" /\ powers' = Append(powers, p * p)
  /\ UNCHANGED <<radix, text, value, rest, parts, out, width>>
(* The largest power always divides; a smaller one only if it still can.     *)
Divide ==
  /\ pc = "divide" /\ powers # <<>>
  /\ LET k == Len(powers)
         p == powers[k]
     IN /\ powers' = SubSeq(powers, 1, k - 1)
        /\ IF rest >= p \/ parts = <<>>
           THEN rest' = rest \div p /\ parts' = Append(parts, <<k - 1, rest % p>>)
           ELSE UNCHANGED <<rest, parts>>
  /\ UNCHANGED <<radix, text, pc, value, out, width>>
Divided == /\ pc = "divide" /\ powers = <<>> /\ pc' = "top" /\ UNCHANGED <<radix, text, value, powers, rest, parts, out, width>>
RECURSIVE WidthOf(_)
WidthOf(q) == IF q = <<>> THEN 0 ELSE D(radix) * PrintChunk * 2 ^ q[1][1] + WidthOf(Tail(q))
WriteTop ==
  /\ pc = "top" /\ pc' = "write" /\ out' = Medium(rest, radix)
  /\ width' = Len(Padded(Top(rest, radix), radix, 1)) + Peeled(rest, radix) * D(radix) + WidthOf(parts)
  /\ UNCHANGED <<radix, text, value, powers, rest, parts>>
WritePart ==
  /\ pc = "write" /\ parts # <<>>
  /\ LET q == parts[Len(parts)] IN out' = out \o Big(q[2], radix, q[1])
  /\ parts' = SubSeq(parts, 1, Len(parts) - 1)
  /\ UNCHANGED <<radix, text, pc, value, powers, rest, width>>
Written == /\ pc = "write" /\ parts = <<>> /\ pc' = "done" /\ UNCHANGED <<radix, text, value, powers, rest, parts, out, width>>
Next == ReadWord \/ ReadChunks \/ ReadLarge \/ PrintSmall \/ PrintMedium \/ PrintLarge \/ MorePowers \/ Divide \/ Divided
        \/ WriteTop \/ WritePart \/ Written

(* Digit by digit, what the text means. *)
RECURSIVE Meaning(_, _)
Meaning(s, r) == IF s = <<>> THEN 0 ELSE Meaning(SubSeq(s, 1, Len(s) - 1), r) * r + s[Len(s)]
RECURSIVE Stripped(_)
Stripped(s) == IF Len(s) > 1 /\ s[1] = 0 THEN Stripped(Tail(s)) ELSE s
ReadRight == pc # "read" => value = Meaning(text, radix)
BufferEnough == Len(text) <= ChunkLen(radix) => Room(text, radix)
(* What is left for the top part fits the fixed arrays of the printer.       *)
TopFits == pc = "top" => Size(rest) <= PrintChunk /\ Peeled(rest, radix) <= PrintChunk /\ (parts # <<>> => rest > 0)
PartsFit == \A k \in 1..Len(parts) : parts[k][2] < Part(radix) ^ (2 ^ parts[k][1])
Decreasing == \A k \in 2..Len(parts) : parts[k][1] < parts[k - 1][1]
PrintRight == pc = "done" => out = Stripped(text) /\ width = Len(out)
===============================================================================
