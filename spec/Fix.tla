-------------------------------- MODULE Fix ---------------------------------
(***************************************************************************)
(* Fixed-point reals (128 fractional bits) on top of Num, for the published *)
(* bucket-number formulas.  A real is [neg, v], its magnitude v * 2^-128.   *)
(***************************************************************************)
EXTENDS Num, Integers
FB == 128
FixR(neg, v) == [neg |-> neg /\ v # "0", v |-> v]
FInt(i) == IF i < 0 THEN FixR(TRUE, NShl(NFromInt(0 - i), FB)) ELSE FixR(FALSE, NShl(NFromInt(i), FB))
FRat(p, q) == LET x == NDiv(NShl(NFromInt(IF p < 0 THEN 0 - p ELSE p), FB), NFromInt(q)) IN FixR(p < 0, x)
FNeg(x) == FixR(~ x.neg, x.v)
FAbs(x) == FixR(FALSE, x.v)
FAdd(x, y) == IF x.neg = y.neg THEN FixR(x.neg, NAdd(x.v, y.v))
              ELSE IF NLess(x.v, y.v) THEN FixR(y.neg, NSub(y.v, x.v)) ELSE FixR(x.neg, NSub(x.v, y.v))
FSub(x, y) == FAdd(x, FNeg(y))
FMul(x, y) == FixR(x.neg # y.neg, NShr(NMul(x.v, y.v), FB))
FDiv(x, y) == FixR(x.neg # y.neg, NDiv(NShl(x.v, FB), y.v))
FLess(x, y) == LET d == FSub(x, y) IN d.neg
FLeq(x, y) == ~ FLess(y, x)
FSqrt(x) ==     \* Newton, from above
  LET n == NShl(x.v, FB)
      s0 == NPow2((NBitLen(n) + 1) \div 2 + 1)
      r == FoldLeft(LAMBDA s, k : LET t == NShr(NAdd(s, NDiv(n, s)), 1) IN IF NLess(t, s) THEN t ELSE s, s0, Idx(60))
  IN FixR(FALSE, r)
\* log2 of a positive integer given in hex: integer part and 64 squarings.
FLog2N(h) ==
  LET e == NBitLen(h) - 1
      m0 == NShr(NShl(h, FB), e)          \* in [1, 2)
      r == FoldLeft(LAMBDA acc, k :
             LET s == NShr(NMul(acc[1], acc[1]), FB)
             IN IF NLess(s, NPow2(FB + 1)) THEN <<s, acc[2]>>
                ELSE <<NShr(s, 1), NAdd(acc[2], NPow2(FB - k))>>, <<m0, "0">>, Idx(64))
  IN FAdd(FInt(e), FixR(FALSE, r[2]))
PI == FDiv(FInt(245850922), FInt(78256779))     \* error below 1e-16
\* erf by its power series: 2/sqrt(pi) * sum (-1)^k x^(2k+1) / (k! (2k+1)); |x| < 6.
Erf(x) ==
  LET x2 == FMul(x, x)
      r == FoldLeft(LAMBDA acc, k :       \* acc = <<term (-1)^(k-1) x^(2k-1)/(k-1)!, sum>>
             LET t == FNeg(FDiv(FMul(acc[1], x2), FInt(k)))
             IN <<t, FAdd(acc[2], FDiv(t, FInt(2*k + 1)))>>, <<x, x>>, Idx(130))
  IN FDiv(FMul(FInt(2), r[2]), FSqrt(PI))
\* ceil of a non-negative real, in hex.
FCeil(x) == IF x.neg THEN "0" ELSE NShr(NAdd(x.v, NSub(NPow2(FB), "1")), FB)
=============================================================================
