------------------------------- MODULE GenFloat --------------------------------
(* Numbers at every edge of the conversions to floats: all the ways the      *)
(* mantissa can end, ones or zeros above it (so that a carry runs through),  *)
(* and, for the ties, the lowest one bit at each end of each word below, or  *)
(* nowhere.  Bits below 2^top are those of the format: 24 and 53, and top is *)
(* next to each size at which the library changes its ways.                  *)
EXTENDS Integers, Sequences, TLC
VARIABLE x
Formats == {<<24, t>> : t \in (24..36) \cup {48, 49, 63, 64, 65, 66, 80, 81, 96, 97, 112, 113} \cup (125..131)}
     \cup  {<<53, t>> : t \in (53..56) \cup (62..67) \cup {80, 96, 97, 112} \cup (116..119) \cup (127..130)
                             \cup {181, 192, 193, 245, 256, 257, 309, 320, 512, 513, 1008} \cup (1021..1027)}
Cut(f) == f[2] - (f[1] + 1)
Ends(c) == {p \in (-1)..(c - 1) : p = -1 \/ p = c - 1 \/ p % 16 \in {0, 15}}
Few(c) == {-1} \cup {p \in {0, c - 1} : p \in 0..(c - 1)}
Init == \E f \in Formats : \E ones \in BOOLEAN : \E last \in 0..3 :
          \E low \in (IF last = 1 /\ ~ones THEN Ends(Cut(f)) ELSE Few(Cut(f))) :
            x = [p |-> f[1], top |-> f[2], ones |-> ones, last |-> last, low |-> low]
Spec == Init /\ [][FALSE]_x
Word(b) == IF b THEN "1" ELSE "0"
Emitted == PrintT("PROGRAM " \o ToString(x.p) \o " " \o ToString(x.top) \o " " \o Word(x.ones) \o " " \o ToString(x.last)
                  \o " " \o ToString(x.low))
===============================================================================
