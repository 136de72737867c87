------------------------------- MODULE GenSweep -------------------------------
(* Every size, up to bounds past each change of algorithm: which lengths,    *)
(* counts and indices the real library is run at.  The library chooses an    *)
(* algorithm from sizes alone, so one full sweep over the sizes visits every *)
(* choice, wherever its thresholds are.                                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS WB, Simple, Karatsuba, SimpleChunk, DivSimple, ReadChunk, PrintChunk
VARIABLE item
Short == WB = 16
Ds(r) == CHOOSE d \in 1..64 : r ^ d < 65536 /\ r ^ (d + 1) >= 65536
(* Digits per 16-bit word; used for the texts only.                          *)
PowerTwo(r) == r \in {2, 4, 8, 16, 32}

Square == {<<"square", n, 0>> : n \in 1..(IF Short THEN 620 ELSE IF WB = 32 THEN 240 ELSE 210)}
Oblong == UNION {{<<"oblong", n, m>> : m \in ((n + 1)..(n + 3)) \cup ((2 * n - 1)..(2 * n + 1)) \cup ((3 * n - 1)..(3 * n + 1))} :
                   n \in {1, 2, 3, Simple - 1, Simple, Simple + 1, Simple + 2, 2 * Simple, 2 * Simple + 1, Karatsuba, Karatsuba + 1}}
Ribbon == IF ~Short THEN {}
          ELSE {<<"oblong", n, m>> : n \in {1, 2, Simple - 1, Simple, Simple + 1}, m \in ((SimpleChunk - 1)..(SimpleChunk + 1)) \cup ((2 * SimpleChunk)..(2 * SimpleChunk + 1))}
Divide == UNION {{<<"divide", n, q>> : q \in {1, 2, DivSimple - 1, DivSimple, DivSimple + 1, n \div 2, n - 1, n, n + 1, 2 * n + 1} \cap (1..300)} :
                   n \in 1..(IF Short THEN 140 ELSE 72)}
(* Quotients long enough for each way of multiplying, and divisors with a    *)
(* short rest after as many words as the quotient has.                       *)
Far == IF ~Short THEN {}
       ELSE UNION {{<<"far", n, q>> : n \in {2 * q, 2 * q + 50, q + Karatsuba + 1}} : q \in {Karatsuba + 1, Karatsuba + 3, Karatsuba + 8}}
            \cup {<<"far", SimpleChunk + q + 10, SimpleChunk + q>> : q \in {16, 66}}
            \cup {<<"far", 2 * Karatsuba, 2 * Simple + 1>>}
(* Factors made of three equal parts, each of a kind of its own.             *)
Thirds == {<<"thirds", n, k>> : n \in IF Short THEN (Karatsuba + 1)..(Karatsuba + 12) ELSE {Karatsuba + 2}, k \in 0..(IF Short THEN 11 ELSE 5)}
Add == {<<"add", n, m>> : n \in 0..14, m \in 0..14}
Carry == {<<"carry", n, m>> : n \in 1..20, m \in 0..20}
Shift == {<<"shift", n, k>> : n \in 1..3, k \in 0..(5 * WB)}
Bits == {<<"bits", n, k>> : n \in 1..3, k \in 0..(5 * WB)}
Query == {<<"query", b, 0>> : b \in 0..(4 * WB + 1)}
Logic == {<<"logic", n, m>> : n \in 0..6, m \in 0..6}
Bytes == {<<"bytes", n, k>> : n \in 0..50, k \in 0..3}
Compare == UNION {{<<"compare", n, j>> : j \in 0..(n - 1)} : n \in 1..8}
Show == {<<"print", r, n>> : r \in 2..36, n \in 1..(IF Short THEN 36 ELSE 18)}
         \cup {<<"print", r, n>> : r \in {3, 10, 36}, n \in ((4 * PrintChunk - 1)..(4 * PrintChunk + 2)) \cup ((8 * PrintChunk - 1)..(8 * PrintChunk + 2))}
Read == UNION {{<<"read", r, n>> : n \in 1..(5 * Ds(r) * (WB \div 16))} : r \in 2..36}
(* Across the chunks of the reader, in radices of every kind.                *)
ReadFar == IF ~Short THEN {}
           ELSE UNION {{<<"read", r, n>> : n \in UNION {{c * ReadChunk * Ds(r) + j : j \in -1..1} : c \in {1, 2, 4}}} :
                         r \in {3, 5, 6, 7, 10, 12, 31, 33, 36}}
Power == {<<"power", b, e>> : b \in 0..8, e \in 0..40}
Gcd == {<<"gcd", n, m>> : n \in 1..9, m \in 1..9}
GcdZeros == {<<"gcdzeros", n, m>> : n \in 0..(2 * WB + 1), m \in {0, 1, WB - 1, WB, WB + 1}}
Ring == {<<"ring", b, k>> : b \in 1..(4 * WB + 1), k \in 0..2}
RingPower == {<<"ringpower", b, k>> : b \in {7, WB, 2 * WB + 3, 3 * WB}, k \in 0..70}
Float == {<<"float", b, 0>> : b \in (0..200) \cup (1018..1030)}
Serial == {<<"serial", n, k>> : n \in 0..9, k \in 0..2}

Items == Square \cup Oblong \cup Ribbon \cup Thirds \cup Divide \cup Far \cup Add \cup Carry \cup Shift \cup Bits \cup Query \cup Logic \cup Bytes
         \cup Compare \cup Show \cup Read \cup ReadFar \cup Power \cup Gcd \cup GcdZeros \cup Ring \cup RingPower \cup Float \cup Serial
(* The sweep takes the sizes of one family after the other.                  *)
Init == item \in Items
Spec == Init /\ [][FALSE]_item

(* Each threshold lies well inside what is swept.                            *)
Past ==
  /\ \A t \in {Simple, Karatsuba} : \A n \in (t - 1)..(t + 2) : <<"square", n, 0>> \in Items
  /\ Short => \A n \in 1..(3 * Karatsuba + 6) : <<"square", n, 0>> \in Items
  /\ \A n \in 1..(2 * DivSimple + 1) : <<"divide", n, DivSimple>> \in Items /\ <<"divide", n, DivSimple + 1>> \in Items
  /\ \A r \in 2..36 : \A n \in 1..(PrintChunk + 2) : <<"print", r, n>> \in Items
ASSUME Past
Emitted == PrintT("PROGRAM " \o item[1] \o " " \o ToString(item[2]) \o " " \o ToString(item[3]))
===============================================================================
