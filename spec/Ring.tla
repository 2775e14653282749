-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The scalar rings the library computes over.  A ring is a record          *)
(*   [kind |-> "Z",  m |-> modulus]   integers mod m (uintN_t, uint128,     *)
(*                                    NTL::zz_p, NTL::ZZ_p)                 *)
(*   [kind |-> "GF", m |-> 2^128]     GF(2)[x]/(x^128+x^7+x^2+x+1), gf128   *)
(* Elements are canonical naturals below m (Num.tla).                       *)
(***************************************************************************)
EXTENDS Num

GFPoly == "87"     \* x^7+x^2+x+1
TwoTo128 == NPow2(128)

\* Multiplication in GF(2^128): shift-and-add, reducing as we go.
PGFMul(a, b) ==
  FoldLeft(LAMBDA acc, k :      \* acc = <<a * x^(k-1), partial sum>>
     LET sh == NLow(NShl(acc[1], 1), 128)
     IN <<IF NBit(acc[1], 127) = 1 THEN NXor(sh, GFPoly) ELSE sh,
          IF NBit(b, k-1) = 1 THEN NXor(acc[2], acc[1]) ELSE acc[2]>>,
     <<a, "0">>, Idx(128))[2]
GFMul(a, b) == PGFMul(a, b)

IsElem(R, x) == NLess(x, R.m)
RAdd(R, a, b) == IF R.kind = "GF" THEN NXor(a, b) ELSE NMod(NAdd(a, b), R.m)
RNeg(R, a) == IF R.kind = "GF" \/ a = "0" THEN a ELSE NSub(R.m, a)
RSub(R, a, b) == RAdd(R, a, RNeg(R, b))
RMul(R, a, b) == IF R.kind = "GF" THEN GFMul(a, b) ELSE NMod(NMul(a, b), R.m)
\* Reduction of a 128-bit word into the ring (what "truncating" means per type).
RFromU128(R, w) == NMod(w, R.m)
RSum(R, s) == FoldLeft(LAMBDA acc, x : RAdd(R, acc, x), "0", s)
VAdd(R, a, b) == [i \in 1..Len(a) |-> RAdd(R, a[i], b[i])]

\* Bytes needed to represent every residue.
RBytes(R) == IF R.kind = "GF" THEN 16 ELSE (NBitLen(NSub(R.m, "1")) + 7) \div 8

Z(k) == [kind |-> "Z", m |-> NPow2(k)]
GF == [kind |-> "GF", m |-> NPow2(128)]
=============================================================================
