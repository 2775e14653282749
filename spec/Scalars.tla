------------------------------ MODULE Scalars -------------------------------
(***************************************************************************)
(* Scalar types.  Word types (u8..u128, gf128) are fixed rings.  The NTL   *)
(* types are rings whose modulus is installed per thread: the state is     *)
(* ctx[th][ty], the ring type ty denotes in thread th.                     *)
(***************************************************************************)
EXTENDS Ring, FiniteSets

WordRing(ty) == CASE ty = "u8" -> Z(8) [] ty = "u16" -> Z(16) [] ty = "u32" -> Z(32)
                  [] ty = "u64" -> Z(64) [] ty = "u128" -> Z(128) [] ty = "gf128" -> GF
Modular == {"zz_p", "ZZ_p"}
RingOf(ctx, th, ty) == IF ty \in Modular THEN ctx[th][ty] ELSE WordRing(ty)
Install(ctx, th, ty, m) == [ctx EXCEPT ![th][ty] = [kind |-> "Z", m |-> m]]

\* Encodings.  Values are canonical naturals, so encoding is truncation only.
Encode(R, x) == NLow(x, 128)
Decode(R, w) == RFromU128(R, w)
PowerOfTwo(R, k) == NMod(NPow2(k), R.m)
SizeOf(R) == RBytes(R)

(* Direct hashing: b-bit words reduced into R are within 2^-sec of uniform  *)
(* by the rule  b - log2(2^b mod m) > sec.  `sec4` is sec in quarter bits,  *)
(* so the rule is rem^4 < 2^(4b - sec4); integer types need b >= width.     *)
Rem(R, b) == NMod(NPow2(b), R.m)
NPow4(x) == LET s == NMul(x, x) IN NMul(s, s)
HashableModular(R, sec4, b) ==
  LET r == Rem(R, b) IN r = "0" \/ (4*b > sec4 /\ NLess(NPow4(r), NPow2(4*b - sec4)))
\* Within 2^-30 of the bound the answer may depend on floating point rounding; not
\* so if all logarithms are integers.
Borderline(R, sec4, b) ==
  LET r == Rem(R, b) IN
  /\ r # "0" /\ r # NPow2(NBitLen(r) - 1) /\ 4*b - sec4 > 0 - 4
  /\ LET lhs == NShl(NPow4(r), 32)
         rhs == NShr(NPow2(4*b - sec4 + 36), 4)   \* scaled by 2^32
         d == IF NLess(lhs, rhs) THEN NSub(rhs, lhs) ELSE NSub(lhs, rhs)
     IN NLeq(NShl(d, 30), rhs)
WordBits(ty) == CASE ty = "u8" -> 8 [] ty = "u16" -> 16 [] ty = "u32" -> 32 [] ty = "u64" -> 64
                  [] OTHER -> 128
Hashable(R, ty, sec4, b) == IF ty \in Modular THEN HashableModular(R, sec4, b) ELSE b >= WordBits(ty)

Wide(R) == NBitLen(R.m) > 55        \* two random elements do not collide
=============================================================================
