------------------------------- MODULE AesGen -------------------------------
(***************************************************************************)
(* The seeded random generator.  Abstractly it is a position in the AES-128 *)
(* counter-mode keystream of its seed:                                      *)
(*   value number n  =  half (n mod 2) of  AES_key(nonce + n div 2)         *)
(* A generator may refuse (throw) only near the reseed limit, and having    *)
(* refused it stays refused until it is seeded again.                       *)
(***************************************************************************)
EXTENDS AES

KeyOf(seed) == SubSeq(seed, 1, 32)
NonceOf(seed) == NatOfLE(SubSeq(seed, 33, 64))
\* Values n are naturals in hex; blk is the index of the block.
BlockAt(seed, blk) == AESEnc(KeyOf(seed), BytesOfLE(NLow(NAdd(NonceOf(seed), blk), 128), 16))
ValueAt(seed, n) == LET b == BlockAt(seed, NShr(n, 1))
                    IN NatOfLE(IF NBit(n, 0) = 0 THEN SubSeq(b, 1, 16) ELSE SubSeq(b, 17, 32))

\* Blocks of one refill of a buffer for `buf` values (at least two).
RefillBlocks(buf) == LET b == IF buf < 2 THEN 2 ELSE buf IN (b + 1) \div 2

New(seed, buf) == [seed |-> seed, pos |-> "0", buf |-> buf, dead |-> FALSE]
Reseed(g, seed) == [g EXCEPT !.seed = seed, !.pos = "0", !.dead = FALSE]
\* May deliver k more values / may refuse now, for a limit of `lim` blocks.
MayEmit(g, k, lim) == ~ g.dead /\ NLeq(NShr(NAdd(NAdd(g.pos, k), "1"), 1), lim)
MayRefuse(g, lim) ==
  g.dead \/ ~ NLeq(NAdd(NShr(NAdd(g.pos, "1"), 1), NFromInt(RefillBlocks(g.buf))), lim)
Advance(g, k) == [g EXCEPT !.pos = NAdd(g.pos, k)]
Refuse(g) == [g EXCEPT !.dead = TRUE]
=============================================================================
