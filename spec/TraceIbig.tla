----------------------------- MODULE TraceIbig ------------------------------
(* Is a recorded execution of the real library a behaviour of module Ibig?   *)
(* Each line of the trace is one API call: operation, operands, outcome and  *)
(* every observed result.  The trace is accepted iff every event is a step.  *)
EXTENDS Ibig, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
NRegs == 16

E == Trace[l]
(* Operand descriptors to values. *)
Operand(d) ==
  CASE d[1] \in {"v", "r", "w"} -> regs[d[2]]
    [] d[1] \in IntTypes -> V(d[1], ZHex(d[2]))
    [] d[1] = "g" -> VX("g", ZToInt(ZHex(d[2])))
    [] OTHER -> VX(d[1], d[2])
Operands(e) == [k \in 1..Len(e.a) |-> Operand(e.a[k])]
Assign(e) == e.a[1][1] = "w"

(* An observed result equals a specified value. *)
TokenIs(t, k) == t[1] = k.k /\ ZIsHex(t[2], k.z)
ResultIs(x, v) ==
  /\ x[1] = v.t
  /\ CASE v.t = "m" -> ZIsHex(x[3], v.z) /\ x[4] = v.g
       [] v.t = "tok" -> Len(x[3]) = Len(v.x) /\ \A k \in 1..Len(v.x) : TokenIs(x[3][k], v.x[k])
       [] v.t \in {"s", "b"} -> x[3] = v.x
       [] OTHER -> ZIsHex(x[3], v.z)
Observed(x) ==
  CASE x[1] = "m" -> VM(ZHex(x[3]), x[4])
    [] x[1] \in {"s", "b", "hist", "tok", "w64"} -> VX(x[1], x[3])
    [] OTHER -> V(x[1], ZHex(x[3]))
Dsts(e) == [k \in 1..Len(e.r) |-> e.r[k][2]]
(* A call on a register in place leaves its result there. *)
InPlace(e) == \A k \in 1..Len(e.a) : (e.a[k][1] = "w" /\ e.o = "ok") => e.r[1][2] = e.a[k][2]

Is(S) == l <= Len(Trace) /\ E.f \in S /\ l' = l + 1
(* Some texts denote numbers too long to be built: any refusal will do. *)
TooLongText(e, x) == /\ e.f \in ParseOps /\ e.o \in {"panic", "err:invalid"} /\ x.o \in {"err:invalid", "panic"}
                     /\ 6 * Len(e.a[1][2]) >= cfg.max
Deterministic ==
  LET e == E
      x == Expect(e.f, Operands(e), Assign(e))
  IN \/ /\ e.o = x.o /\ Len(e.r) = Len(x.r)
        /\ \A k \in 1..Len(x.r) : ResultIs(e.r[k], x.r[k])
        /\ InPlace(e)
        /\ Call(e.f, e.a, e.o, x.r, Dsts(e))
     \/ TooLongText(e, x) /\ e.r = <<>> /\ Call(e.f, e.a, e.o, <<>>, <<>>)
Relational(f) ==
  LET e == E
      r == [k \in 1..Len(e.r) |-> Observed(e.r[k])]
  IN /\ e.o # "ok" => e.r = <<>>
     /\ Allowed(f, Operands(e), e.o, r)
     /\ InPlace(e)
     /\ Call(e.f, e.a, e.o, r, Dsts(e))

DoConfig ==
  /\ Is({"cfg"}) /\ l = 1
  /\ cfg' = MkCfg(ZToInt(ZHex(E.a[1][2])), ZToInt(ZHex(E.a[2][2])), ZHex(E.a[3][2]))
  /\ UNCHANGED <<regs, rings>>
IsModDiv == E.f = "div" /\ E.a[1][1] \in {"r", "v", "w"} /\ regs[E.a[1][2]].t = "m"
DoLoad == Is({"load", "default"}) /\ Deterministic
DoArithmetic == Is({"add", "sub", "mul", "neg", "pow", "abs", "uabs", "signum"}) /\ Deterministic
DoDivision == Is(DivisionOps) /\ ~IsModDiv /\ Deterministic
DoModDivision == Is({"div"}) /\ IsModDiv /\ Relational("div-m")
DoBitwise == Is({"and", "or", "xor", "andnot", "not"}) /\ Deterministic
DoShift == Is({"shl", "shr"}) /\ Deterministic
DoBits == Is({"bit", "setbit", "clearbit", "bitlen", "tz", "ispow2", "nextpow2"}) /\ Deterministic
DoCompare == Is({"cmp"}) /\ Relational("cmp")
DoCopy == Is({"clone", "clonefrom", "get", "u2i", "i2u"}) /\ Deterministic
DoConvert == Is(ConvOps \cup {"fromu", "fromi", "fromle", "frombe", "tole", "tobe", "f32", "f64"}) /\ Deterministic
DoParse == Is(ParseOps \cup {"lit"}) /\ Deterministic
DoFormat == Is({"fmt", "fmterr"}) /\ Deterministic
DoGcd == Is({"gcd"}) /\ Deterministic
DoExtendedGcd == Is({"egcd"}) /\ Relational("egcd")
DoRing == Is({"ring", "modulus", "ringeq", "into", "residue", "meq", "mpow"}) /\ Deterministic
DoInverse == \/ Is({"inv"}) /\ Relational("inv")
             \/ Is({"mpows"}) /\ Relational("mpows")
DoTraits == Is({"nt_zero", "nt_one", "nt_iszero", "nt_isone", "nt_setzero", "nt_setone", "nt_pow", "nt_abs",
                "nt_abssub", "nt_signum", "nt_ispos", "nt_isneg"}) /\ Deterministic
DoSerialize == Is({"ser"}) /\ Deterministic
DoDeserialize == Is({"de"}) /\ Relational("de")
DoSample == \/ Is({"sample"}) /\ Relational("sample")
            \/ Is({"hist"}) /\ Relational("hist")
            \/ Is({"bithist"}) /\ Relational("bithist")
DoDrop == Is({"drop"}) /\ Relational("drop")
DoForget == /\ Is({"forget"}) /\ regs' = [regs EXCEPT ![ZToInt(ZHex(E.a[1][2]))] = Absent]
            /\ UNCHANGED <<cfg, rings>>
(* The program lets go of everything; nothing may remain allocated. *)
DoBalance == /\ Is({"balance"}) /\ Allowed("balance", <<>>, E.o, [k \in 1..Len(E.r) |-> Observed(E.r[k])])
             /\ regs' = [k \in 0..(NRegs - 1) |-> Absent] /\ rings' = <<>> /\ UNCHANGED cfg

Init == /\ l = 1 /\ regs = [k \in 0..(NRegs - 1) |-> Absent] /\ rings = <<>>
        /\ cfg = MkCfg(64, 64, ZTwo(60))
Next == \/ DoConfig \/ DoLoad \/ DoArithmetic \/ DoDivision \/ DoModDivision \/ DoBitwise \/ DoShift \/ DoBits
        \/ DoCompare \/ DoCopy \/ DoConvert \/ DoParse \/ DoFormat \/ DoGcd \/ DoExtendedGcd \/ DoRing
        \/ DoInverse \/ DoTraits \/ DoSerialize \/ DoDeserialize \/ DoSample \/ DoDrop \/ DoForget \/ DoBalance
Spec == Init /\ [][Next]_<<vars, l>>

(* One state per trace position: the recorded results determine the rest. *)
Position == l
(* Every event was accepted. *)
Accepted == Assert(TLCGet("stats").diameter = Len(Trace) + 1,
                   <<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
