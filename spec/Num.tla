-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Natural numbers of arbitrary size, written as canonical lower-case hex  *)
(* strings ("0", "1f", ...; no leading zero), because TLC's own integers   *)
(* are 32-bit and the system computes with 64-, 128- and 256-bit words.    *)
(*                                                                         *)
(* Every operator N* has a definition in TLA+ (through P*, on little-endian *)
(* base-256 limb sequences).  TLC replaces N* by java/tlc2/module/Num.java *)
(* for speed; SelfCheck.tla compares the two on every run of every check.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
DigitOf(c) == CHOOSE d \in 0..15 : HexDigits[d+1] = c

HexByte(v) == HexDigits[(v \div 16) + 1] \o HexDigits[(v % 16) + 1]
CharAt(s, i) == SubSeq(s, i, i)

-----------------------------------------------------------------------------
(* Limb sequences: little endian, base 256, no trailing zero limb.         *)

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN <<>>
           ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s)-1)) ELSE s

Limb(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
MaxI(a, b) == IF a >= b THEN a ELSE b

ToLimbs(h) ==
  LET p == IF Len(h) % 2 = 1 THEN "0" \o h ELSE h
      n == Len(p) \div 2
  IN Trim([i \in 1..n |->
        16 * DigitOf(CharAt(p, 2*(n-i)+1)) + DigitOf(CharAt(p, 2*(n-i)+2))])

FromLimbs(l) ==
  IF l = <<>> THEN "0"
  ELSE LET full == FoldLeft(LAMBDA acc, b : HexByte(b) \o acc, "", l)
       IN IF CharAt(full, 1) = "0" THEN SubSeq(full, 2, Len(full)) ELSE full

\* Folds keep their accumulator evaluated (TLC evaluates arguments lazily).
Idx(n) == [i \in 1..n |-> i]
AddL(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
              LET t == Limb(a, i) + Limb(b, i) + acc[2]
              IN <<Append(acc[1], t % 256), t \div 256>>,
              <<<<>>, 0>>, Idx(MaxI(Len(a), Len(b))))
  IN Trim(Append(r[1], r[2]))
PAdd(a, b) == FromLimbs(AddL(ToLimbs(a), ToLimbs(b)))

SubL(a, b) ==   \* a >= b
  LET r == FoldLeft(LAMBDA acc, i :
              LET t == a[i] - Limb(b, i) - acc[2]
              IN IF t < 0 THEN <<Append(acc[1], t + 256), 1>> ELSE <<Append(acc[1], t), 0>>,
              <<<<>>, 0>>, Idx(Len(a)))
  IN Trim(r[1])
PSub(a, b) == FromLimbs(SubL(ToLimbs(a), ToLimbs(b)))

ScaleL(a, d) ==
  LET r == FoldLeft(LAMBDA acc, i :
              LET t == a[i]*d + acc[2]
              IN <<Append(acc[1], t % 256), t \div 256>>, <<<<>>, 0>>, Idx(Len(a)))
  IN Trim(Append(r[1], r[2]))
Zeros(n) == [i \in 1..n |-> 0]
MulL(a, b) == FoldLeft(LAMBDA acc, i : AddL(acc, Zeros(i-1) \o ScaleL(a, b[i])), <<>>, Idx(Len(b)))
PMul(a, b) == FromLimbs(MulL(ToLimbs(a), ToLimbs(b)))

RECURSIVE CmpL(_, _, _)
CmpL(a, b, i) ==   \* -1, 0, 1 comparing limbs i, i-1, ...
  IF i = 0 THEN 0
  ELSE IF Limb(a, i) # Limb(b, i) THEN (IF Limb(a, i) < Limb(b, i) THEN 0-1 ELSE 1)
  ELSE CmpL(a, b, i-1)
PLess(a, b) == LET x == ToLimbs(a) y == ToLimbs(b)
               IN CmpL(x, y, MaxI(Len(x), Len(y))) < 0

Pow2I(k) == <<1,2,4,8,16,32,64,128>>[k+1]
PShl(a, k) == IF a = "0" THEN "0"
              ELSE FromLimbs(Trim(Zeros(k \div 8) \o ScaleL(ToLimbs(a), Pow2I(k % 8))))
PShr(a, k) ==
  LET l == ToLimbs(a)
      q == k \div 8
      r == k % 8
      s == IF q >= Len(l) THEN <<>> ELSE SubSeq(l, q+1, Len(l))
  IN FromLimbs(Trim([i \in 1..Len(s) |->
        (s[i] \div Pow2I(r)) + (IF r = 0 THEN 0 ELSE ((Limb(s, i+1) * Pow2I(8 - r)) % 256))]))
PBit(a, k) == (Limb(ToLimbs(a), (k \div 8) + 1) \div Pow2I(k % 8)) % 2

\* Exclusive or of two n-bit integers, bit by bit.
XorI(x, y, n) == FoldLeft(LAMBDA acc, k :
                    acc + (((x \div (2^(k-1))) + (y \div (2^(k-1)))) % 2) * 2^(k-1), 0, Idx(n))
PXor(a, b) == LET x == ToLimbs(a) y == ToLimbs(b)
              IN FromLimbs(Trim([i \in 1..MaxI(Len(x), Len(y)) |->
                    XorI(Limb(x, i), Limb(y, i), 8)]))

RECURSIVE BitLenI(_)
BitLenI(v) == IF v = 0 THEN 0 ELSE 1 + BitLenI(v \div 2)
PBitLen(a) == LET l == ToLimbs(a)
              IN IF l = <<>> THEN 0 ELSE 8 * (Len(l)-1) + BitLenI(l[Len(l)])

DivMod(a, m) ==    \* schoolbook, most significant bit first
  LET n == PBitLen(a)
  IN FoldLeft(LAMBDA acc, j :
       LET r1 == PAdd(PAdd(acc[2], acc[2]), IF PBit(a, n-j) = 1 THEN "1" ELSE "0")
       IN IF PLess(r1, m) THEN <<PAdd(acc[1], acc[1]), r1>>
          ELSE <<PAdd(PAdd(acc[1], acc[1]), "1"), PSub(r1, m)>>,
       <<"0", "0">>, Idx(n))
PMod(a, m) == DivMod(a, m)[2]
PDiv(a, m) == DivMod(a, m)[1]

RECURSIVE PFromInt(_)
PFromInt(i) == IF i < 16 THEN HexDigits[i+1]
               ELSE PFromInt(i \div 16) \o HexDigits[(i % 16) + 1]
RECURSIVE PToIntL(_, _)
PToIntL(l, i) == IF i > Len(l) THEN 0 ELSE l[i] + 256 * PToIntL(l, i+1)
PToInt(a) == PToIntL(ToLimbs(a), 1)      \* a < 2^31

(* Byte strings: hex, two digits per byte, in memory order.                *)
PBytesOfLE(a, n) == FoldLeft(LAMBDA acc, i : acc \o HexByte(Limb(ToLimbs(a), i)),
                             "", [i \in 1..n |-> i])
PNatOfLE(bs) == FromLimbs(Trim([i \in 1..(Len(bs) \div 2) |->
                  16 * DigitOf(CharAt(bs, 2*i-1)) + DigitOf(CharAt(bs, 2*i))]))
-----------------------------------------------------------------------------
(* The operators the specifications use.                                    *)
NAdd(a, b) == PAdd(a, b)
NSub(a, b) == PSub(a, b)
NMul(a, b) == PMul(a, b)
NDiv(a, b) == PDiv(a, b)
NMod(a, b) == PMod(a, b)
NLess(a, b) == PLess(a, b)
NShl(a, k) == PShl(a, k)
NShr(a, k) == PShr(a, k)
NBit(a, k) == PBit(a, k)
NXor(a, b) == PXor(a, b)
NBitLen(a) == PBitLen(a)
NFromInt(i) == PFromInt(i)
NToInt(a) == PToInt(a)
BytesOfLE(a, n) == PBytesOfLE(a, n)
NatOfLE(bs) == PNatOfLE(bs)

NLeq(a, b) == ~ NLess(b, a)
NPow2(k) == NShl("1", k)
NLow(a, k) == NMod(a, NPow2(k))
=============================================================================
