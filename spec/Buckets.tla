------------------------------ MODULE Buckets -------------------------------
(***************************************************************************)
(* The recommended number of buckets for n inputs (https://eprint.iacr.org/ *)
(* 2018/579, Appendix B, as implemented by cryptoTools), for security sec.  *)
(* The code works in double precision; results within a relative 1e-9 of    *)
(* the exact value are accepted.                                            *)
(***************************************************************************)
EXTENDS Fix
Root2 == FSqrt(FInt(2))
HalfErf(max, x, mean, sd) == FMul(FMul(max, FRat(1, 2)), FAdd(FInt(1), Erf(FDiv(FSub(x, mean), FMul(sd, Root2)))))
\* Three functions: sec = A e + B with e the expansion factor.
Expansion3(n, sec) ==
  LET lg == FLog2N(n)
      A == HalfErf(FRat(1235, 10), lg, FRat(63, 10), FRat(23, 10))
      B == FSub(HalfErf(FInt(-130), lg, FRat(645, 100), FRat(218, 100)), lg)
  IN FDiv(FSub(sec, B), A)
Slack == FRat(1, 1000000000)
Recommended3(n, sec, r) ==
  LET x == FMul(Expansion3(n, sec), FixR(FALSE, NShl(n, FB)))
      lo == FMul(x, FSub(FInt(1), Slack)) hi == FMul(x, FAdd(FInt(1), Slack))
  IN NLeq(FCeil(lo), r) /\ NLeq(r, FCeil(hi))
\* Two functions: the least integer factor e >= 2 (1 for security 0) that is secure.
Sec2(n, e) ==
  LET lg == FLog2N(n) E == FInt(e)
  IN FSub(FAdd(FAdd(FMul(FRat(33, 10), FLog2N(NFromInt(e))), FRat(-8, 10)), lg),
          FDiv(FAdd(FMul(FInt(5), lg), FInt(14)), FMul(FMul(E, E), FSqrt(E))))
Recommended2(n, sec, r) ==
  LET e == NToInt(NDiv(r, n)) IN
  /\ NMod(r, n) = "0" /\ e >= 1
  /\ IF FLeq(sec, FInt(0)) THEN e = 1
     ELSE /\ e >= 2 /\ FLeq(FSub(sec, Slack), Sec2(n, e))
          /\ (e > 2 => FLess(Sec2(n, e - 1), FAdd(sec, Slack)))
RecommendedOK(k, n, sec4, r) ==
  LET sec == FRat(sec4, 4) IN IF k = 3 THEN Recommended3(n, sec, r) ELSE Recommended2(n, sec, r)
=============================================================================
