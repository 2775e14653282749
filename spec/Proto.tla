------------------------------- MODULE Proto --------------------------------
(***************************************************************************)
(* What the two-party protocols deliver (joint correctness) and what each   *)
(* message may depend on.  An execution of an operation is a record:        *)
(*   n, idx            lengths and chosen indices (0-based)                 *)
(*   po, ro            outputs of the provider (sender / value provider /   *)
(*                     scalar's owner) and of the other party               *)
(*   a, b, x, y, u, v, w   the inputs                                       *)
(*   ot, msg           the OT calls and the messages, in order              *)
(***************************************************************************)
EXTENDS Scalars, GGM, Bags
IsVec(R, s) == \A i \in 1..Len(s) : IsElem(R, s[i])
SetOf(s) == {s[i] : i \in 1..Len(s)}
SumInt(s) == FoldLeft(LAMBDA acc, k : acc + k, 0, s)

-----------------------------------------------------------------------------
(* Correctness.                                                             *)
RotOK(R, e) ==
  /\ Len(e.po) = Len(e.n) /\ Len(e.ro) = Len(e.n)
  /\ \A i \in 1..Len(e.n) :
       /\ Len(e.po[i]) = e.n[i] /\ Len(e.ro[i]) = e.n[i]
       /\ IsVec(R, e.po[i]) /\ IsVec(R, e.ro[i])
       /\ \A k \in 1..e.n[i] : k - 1 # e.idx[i] => e.po[i][k] = e.ro[i][k]
SpfssOK(R, e) ==
  /\ Len(e.po) = Len(e.n) /\ Len(e.ro) = Len(e.n)
  /\ \A i \in 1..Len(e.n) :
       /\ Len(e.po[i]) = e.n[i] /\ Len(e.ro[i]) = e.n[i]
       /\ IsVec(R, e.po[i]) /\ IsVec(R, e.ro[i])
       /\ \A k \in 1..e.n[i] :
            RAdd(R, e.po[i][k], e.ro[i][k]) = IF k - 1 = e.idx[i] THEN RAdd(R, e.a[i], e.b[i]) ELSE "0"
GilboaOK(R, e) ==
  /\ Len(e.po) = Len(e.y) /\ Len(e.ro) = Len(e.y) /\ IsVec(R, e.po) /\ IsVec(R, e.ro)
  /\ \A i \in 1..Len(e.y) : RAdd(R, e.po[i], e.ro[i]) = RMul(R, e.x, e.y[i])
\* The premise of MPFSS.
Correlated(R, e) == /\ Len(e.u) = e.nb /\ Len(e.v) = e.nb /\ Len(e.w) = e.nb
                    /\ \A i \in 1..e.nb : e.w[i] = RAdd(R, RMul(R, e.u[i], e.x), e.v[i])
MpfssOK(R, e) ==
  /\ Len(e.po) = e.size /\ Len(e.ro) = e.size /\ IsVec(R, e.po) /\ IsVec(R, e.ro)
  /\ LET at == TLCEval([k \in SetOf(e.idx) |-> CHOOSE i \in 1..Len(e.idx) : e.idx[i] = k]) IN
     \A k \in 1..e.size :
       RAdd(R, e.po[k], e.ro[k]) = IF k - 1 \in DOMAIN at THEN RMul(R, e.x, e.y[at[k-1]]) ELSE "0"

-----------------------------------------------------------------------------
(* Views.                                                                   *)
Sends(e, p) == SelectSeq(e.ot, LAMBDA o : o.p = p /\ o.op \in {"ot_send", "cot_send"})
Recvs(e, p) == SelectSeq(e.ot, LAMBDA o : o.p = p /\ o.op \in {"ot_recv", "cot_recv"})
MsgsOf(e, p) == SelectSeq(e.msg, LAMBDA m : m.p = p)
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
OtCount(s) == SumInt([i \in 1..Len(s) |-> s[i].n])
\* Number of OTs the receiver may use: one per level below the root.
MaxOts(n) == SumInt([i \in 1..Len(n) |-> IF n[i] = 0 THEN 0
                     ELSE MinLevels(2, n[i]) - 1 + (IF n[i] > 1 /\ IsPower(2, n[i]) THEN 1 ELSE 0)])
\* Sent in clear: elements, and bytes of what is not a vector of elements.
ClearElems(ms) == SumInt([i \in 1..Len(ms) |-> IF ms[i].dec THEN Len(ms[i].el) ELSE 0])
ClearBytes(ms) == SumInt([i \in 1..Len(ms) |-> IF ms[i].dec THEN 0 ELSE ms[i].len])
RawBlocks(ms) == UNION {SetOf(ms[i].raw) : i \in 1..Len(ms)}
KeyBytes == 32
\* Everything of 128 bits that the receiver of the trees obtains.
Blocks(e) == UNION ({SetOf(o.x) : o \in SetOf(Recvs(e, 1 - e.prov))} \cup {RawBlocks(MsgsOf(e, e.prov))})
Unchosen(e) ==
  LET s == Sends(e, e.prov) r == Recvs(e, 1 - e.prov) IN
  UNION {{IF r[k].c[t] = 1 THEN s[k].x[t] ELSE s[k].y[t] : t \in 1..s[k].n} : k \in 1..Len(s)}
SameCalls(e) ==
  LET s == Sends(e, e.prov) r == Recvs(e, 1 - e.prov) IN
  /\ Len(s) = Len(r) /\ Recvs(e, e.prov) = <<>> /\ Sends(e, 1 - e.prov) = <<>>
  /\ \A k \in 1..Len(s) : s[k].n = r[k].n /\ s[k].op = "ot_send" /\ r[k].op = "ot_recv"
\* Trees: the receiver gets one message per level and the keys, nothing else;
\* what it did not choose appears nowhere in its view.
TreeViewOK(R, e, elems) ==
  /\ SameCalls(e)
  /\ OtCount(Sends(e, e.prov)) <= MaxOts(e.n)
  /\ ClearBytes(MsgsOf(e, e.prov)) <= KeyBytes
  /\ ClearElems(MsgsOf(e, e.prov)) <= elems
  /\ (Unchosen(e) \ {"0"}) \cap Blocks(e) = {}
\* The values the receiver must not know: `lost[i]` for every output.
MissingOK(R, e, lost, known) ==
  Wide(R) => "0" \notin lost /\ LET b == {RFromU128(R, x) : x \in Blocks(e)}
             IN lost \cap (b \cup known) = {}
\* The sum of the leaves in even (odd) places, as far as they share the lost leaf's
\* parity, gives the lost leaf away: the receiver must not have obtained it.
SharedSum(R, s, m) ==
  FoldLeft(LAMBDA acc, k : IF k % 2 = m % 2 THEN NXor(acc, s[k + 1]) ELSE acc, "0", [k \in 1..Len(s) |-> k - 1])
NoSharedSum(R, e, neg) ==
  Wide(R) => LET b == {RFromU128(R, x) : x \in Blocks(e)} IN
    \A i \in {j \in 1..Len(e.n) : e.n[j] > 1} :
      SharedSum(R, IF neg THEN [k \in 1..e.n[i] |-> RNeg(R, e.po[i][k])] ELSE e.po[i], e.idx[i]) \notin b
\* Where the OTs evidently are ordered by output, and by level from the root, a level
\* on which the path's node has no sibling is no different: the other side is chosen.
\* <<position in the list of OTs, bit of the index, whether there is a sibling>>
Steps(e) ==
  FoldLeft(LAMBDA acc, i :
     IF e.n[i] = 0 THEN acc
     ELSE LET L == MinLevels(2, e.n[i]) sz == Sizes(2, e.n[i], L) IN
          acc \o [t \in 1..(L - 1) |->
                   LET node == Ancestor(e.idx[i], 2, L - 1 - t) IN
                   <<node % 2, (IF node % 2 = 0 THEN node + 1 ELSE node - 1) < sz[t + 1]>>],
     <<>>, Idx(Len(e.n)))
ChoicesOK(e) ==
  LET c == TLCEval(Flat([k \in 1..Len(Recvs(e, 1 - e.prov)) |-> Recvs(e, 1 - e.prov)[k].c]))
      s == TLCEval(Steps(e))
      paired == {t \in 1..Len(s) : s[t][2]}
  IN ( /\ Len(c) = Len(s)
       /\ \A b \in 0..1 : Cardinality({t \in paired : s[t][1] = b}) >= 8
       /\ \A t \in paired : c[t] = 1 - s[t][1] )
     => \A t \in 1..Len(s) : c[t] = 1 - s[t][1]
RotViewOK(R, e) ==
  /\ TreeViewOK(R, e, 0)
  /\ NoSharedSum(R, e, FALSE) /\ ChoicesOK(e)
  /\ MissingOK(R, e, {e.po[i][e.idx[i] + 1] : i \in {j \in 1..Len(e.n) : e.n[j] > 0}},
               UNION {SetOf(e.ro[i]) : i \in 1..Len(e.n)})
\* The correction value is masked by all leaves (the provider's output is their negation).
CorrectionOK(R, e) ==
  LET ms == SelectSeq(MsgsOf(e, e.prov), LAMBDA m : m.dec) IN
  Len(ms) = 1 => \* (another encoding is not looked into)
    /\ Len(ms[1].el) = Len(e.n)
    /\ \A i \in {j \in 1..Len(e.n) : e.n[j] > 0} :
         LET c == RSub(R, e.a[i], RSum(R, e.po[i])) IN ms[1].el[i] = c \/ ms[1].el[i] = RNeg(R, c)
\* The leaves at the chosen positions.
LostLeaves(R, e) == LET q == SelectSeq(Idx(Len(e.n)), LAMBDA i : e.n[i] > 0)
                    IN [t \in 1..Len(q) |-> RNeg(R, e.po[q[t]][e.idx[q[t]] + 1])]
SpfssViewOK(R, e) ==
  /\ TreeViewOK(R, e, Len(e.n)) /\ CorrectionOK(R, e)
  /\ NoSharedSum(R, e, TRUE) /\ ChoicesOK(e)
  /\ MissingOK(R, e, SetOf(LostLeaves(R, e)),
        UNION {{e.ro[i][k] : k \in {k \in 1..e.n[i] : k - 1 # e.idx[i]}} : i \in 1..Len(e.n)})

\* MPFSS: the only vector sent by the index provider.
MaskedOK(R, e) ==
  LET ms == MsgsOf(e, 1 - e.prov) IN
  /\ ClearElems(ms) = e.nb /\ ClearBytes(ms) = 0
  /\ Len(ms) = 1 =>
       LET d == [i \in 1..e.nb |-> RSub(R, ms[1].el[i], e.u[i])]
           nz(s) == SelectSeq(s, LAMBDA z : z # "0")
           count(s) == [z \in SetOf(s) |-> Len(SelectSeq(s, LAMBDA q : q = z))]
       IN count(nz(d)) = count(nz(e.y))

-----------------------------------------------------------------------------
(* Fresh material: everything random that a run of trees shows.             *)
AllDistinct(s) == Cardinality(SetOf(s)) = Len(s)
Material(R, e) ==
  Flat([k \in 1..Len(Sends(e, e.prov)) |-> SelectSeq(Sends(e, e.prov)[k].x \o Sends(e, e.prov)[k].y, LAMBDA z : z # "0")])
     \o Flat([k \in 1..Len(MsgsOf(e, e.prov)) |-> MsgsOf(e, e.prov)[k].raw])
\* (the sum of a level may be a single leaf, so leaves are told apart from it)
Leaves(R, e) == IF Wide(R) THEN LET f == Flat(e.po) IN [i \in 1..Len(f) |-> "leaf " \o f[i]] ELSE <<>>
\* For each non-empty output a seed, and the keys.
Needed(e) == 16 * Len(SelectSeq(e.n, LAMBDA k : k > 0)) + KeyBytes

\* The sender's rule: rem * total * 2^sec < 2^128 (exact in quarter bits).
HashableTotal(R, ty, sec4, total) ==
  IF ty \notin Modular THEN TRUE
  ELSE LET r == NMul(Rem(R, 128), NFromInt(total)) IN
       ~ NLess(NPow2(128), R.m) /\ (r = "0" \/ (512 > sec4 /\ NLess(NPow4(r), NPow2(512 - sec4))))
BorderlineTotal(R, ty, sec4, total) ==
  \/ total = 0
  \/ /\ ty \in Modular /\ 512 > sec4
     /\ LET lhs == NPow4(NMul(Rem(R, 128), NFromInt(total))) rhs == NPow2(512 - sec4)
            d == IF NLess(lhs, rhs) THEN NSub(rhs, lhs) ELSE NSub(lhs, rhs)
        IN NLess(NShl(d, 30), NMul(rhs, "4"))

-----------------------------------------------------------------------------
(* Gilboa: the OT messages of the vector's owner.                           *)
ElemBits(R) == 8 * RBytes(R)
Stride(R) == 16 \div RBytes(R)
Unpack(R, blk) == [k \in 1..Stride(R) |-> NLow(NShr(blk, (k-1) * ElemBits(R)), ElemBits(R))]
GilFlavour(e) ==
  LET s == Sends(e, 1 - e.prov) r == Recvs(e, e.prov) IN
  /\ Len(s) = Len(r) /\ Recvs(e, 1 - e.prov) = <<>> /\ Sends(e, e.prov) = <<>>
  /\ \A k \in 1..Len(s) : s[k].n = r[k].n /\ (s[k].op = "ot_send") = (r[k].op = "ot_recv")
\* Correlated OT takes its masks from 8*SizeOf hash bits: allowed if near uniform.
CotAllowed(R, ty, sec4, len) ==
  IF ty \notin Modular THEN TRUE
  ELSE LET b == ElemBits(R) r == NMul(Rem(R, b), NFromInt(len)) IN
       r = "0" \/ (4*b > sec4 /\ NLeq(NPow4(r), NMul("4", NPow2(4*b - sec4))))
UsesCot(e) == \E o \in SetOf(e.ot) : o.op \in {"cot_send", "cot_recv"}
Masks1of2(e) == Flat([k \in 1..Len(Sends(e, 1 - e.prov)) |->
                     IF Sends(e, 1 - e.prov)[k].op = "ot_send" THEN Sends(e, 1 - e.prov)[k].x ELSE <<>>])
Seconds1of2(e) == Flat([k \in 1..Len(Sends(e, 1 - e.prov)) |->
                     IF Sends(e, 1 - e.prov)[k].op = "ot_send" THEN Sends(e, 1 - e.prov)[k].y ELSE <<>>])
\* Bits of randomness of a packed word of residues.
WordEntropy(R) == Stride(R) * (NBitLen(R.m) - 1)
Quarter(R, z) == NDiv(NMul("4", z), R.m)
UniformLooking(R, els) ==
  Len(els) >= 160 =>
    IF NLess(R.m, "8") THEN SetOf(els) = {NFromInt(i) : i \in 0..(NToInt(R.m) - 1)}
    ELSE {Quarter(R, z) : z \in SetOf(els)} = {"0", "1", "2", "3"}
=============================================================================
