------------------------------- MODULE Slices -------------------------------
(* Word buffers as the algorithms see them: a buffer is the natural number   *)
(* its words denote, a slice x[i..j] a window of that number.  All lengths   *)
(* and positions are in words of WB bits, counted from the low end.          *)
EXTENDS Integers, Sequences, BigZ
CONSTANT WB

WordsOf(n) == ZTwo(n * WB)
Slice(x, i, j) == ZMod(ZShrFloor(x, i * WB), WordsOf(j - i))
Put(x, i, j, y) == ZAdd(x, ZShl(ZSub(y, Slice(x, i, j)), i * WB))
(* x[i..j] += d, for d of either sign: the new buffer and the signed carry   *)
(* out of the window.                                                        *)
AddAt(x, i, j, d) ==
  LET s == ZAdd(Slice(x, i, j), d)
  IN <<Put(x, i, j, ZMod(s, WordsOf(j - i))), ZToInt(ZShrFloor(s, (j - i) * WB))>>
Signed(sg, x) == IF sg < 0 THEN ZNeg(x) ELSE x

(* Word patterns that make carries and borrows run: a block of n words.      *)
Block(kind, n) ==
  CASE kind = "zero" -> Z0
    [] kind = "one" -> Z1
    [] kind = "two" -> ZInt(2)
    [] kind = "max" -> ZSub(WordsOf(n), Z1)
    [] kind = "max-1" -> ZSub(WordsOf(n), ZInt(2))
    [] kind = "top" -> ZTwo(n * WB - 1)
    [] kind = "top-1" -> ZSub(ZTwo(n * WB - 1), Z1)
    [] kind = "top+1" -> ZAdd(ZTwo(n * WB - 1), Z1)
    [] kind = "high" -> ZTwo((n - 1) * WB)
    [] kind = "low" -> ZSub(WordsOf(1), Z1)
    [] kind = "third" -> ZDivT(ZSub(WordsOf(n), Z1), ZInt(3))
    [] kind = "holes" -> ZSub(ZSub(WordsOf(n), Z1), ZSub(WordsOf((n + 1) \div 2), Z1))
(* Blocks from the low end: kinds ks of lengths ns. *)
RECURSIVE Blocks(_, _)
Blocks(ks, ns) ==
  IF ks = <<>> THEN Z0 ELSE ZAdd(Block(ks[1], ns[1]), ZShl(Blocks(Tail(ks), Tail(ns)), ns[1] * WB))
=============================================================================
