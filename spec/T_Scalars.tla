----------------------------- MODULE T_Scalars ------------------------------
EXTENDS Scalars, TraceBase
VARIABLES ctx, seen
vars == <<ctx, seen>>
NoRing == [kind |-> "Z", m |-> "0"]
Init == /\ l = 1 /\ seen = {}
        /\ ctx = [th \in 1..8 |-> [ty \in Modular |-> NoRing]]
R0 == RingOf(ctx, Ev.th, Ev.ty)
Quiet == UNCHANGED vars
DoInstall == IsEv("install") /\ ctx' = Install(ctx, Ev.th, Ev.ty, Ev.m) /\ UNCHANGED seen

SizeOK == Ev.v = SizeOf(R0)
EncOK == /\ IsElem(R0, Ev.x) /\ Ev.r = Encode(R0, Ev.x) /\ Ev.back = Decode(R0, Ev.r)
         /\ (NBitLen(R0.m) <= 129 => Ev.back = Ev.x)
DecOK == Ev.r = Decode(R0, Ev.w)
BitsOK == Len(Ev.b) = 8 * SizeOf(R0) /\ \A k \in 1..Len(Ev.b) : Ev.b[k] = NBit(Ev.x, k-1)
Pow2sOK == /\ \A k \in 1..Len(Ev.p) : Ev.p[k] = PowerOfTwo(R0, k-1)
           /\ Len(Ev.p) >= NBitLen(NSub(R0.m, "1"))
CanOK == \/ Ev.ty \in Modular /\ Borderline(R0, Ev.sec4, Ev.b)
         \/ Ev.r = Hashable(R0, Ev.ty, Ev.sec4, Ev.b)
\* Many elements at once: every bit of a word varies, every small residue occurs.
CoverOK == LET S == {Ev.v[i] : i \in 1..Len(Ev.v)} w == NBitLen(NSub(R0.m, "1")) IN
           /\ \A i \in 1..Len(Ev.v) : IsElem(R0, Ev.v[i])
           /\ (\E x \in S : NLess(NAdd(x, x), R0.m)) /\ (\E x \in S : ~ NLess(NAdd(x, x), NSub(R0.m, "1")))
           /\ \A k \in 0..(w-2) : (\E x \in S : NBit(x, k) = 0) /\ (\E x \in S : NBit(x, k) = 1)
           /\ (w <= 8 => Cardinality(S) = NToInt(R0.m))
Check(name, ok) == IsEv(name) /\ Holds(ok) /\ Quiet

\* A span of a larger array is randomized; `pre` and `post` are the whole array.
New == SubSeq(Ev.post, Ev.off + 1, Ev.off + Ev.n)
Vals == {<<R0.m, New[i]>> : i \in 1..Ev.n}
FillOK == /\ Len(Ev.pre) = Len(Ev.post) /\ Ev.guard
          /\ \A i \in 1..Len(Ev.pre) : (i <= Ev.off \/ i > Ev.off + Ev.n) => Ev.post[i] = Ev.pre[i]
          /\ \A i \in 1..Ev.n : IsElem(R0, New[i])
          /\ (Wide(R0) => Cardinality(Vals) = Ev.n /\ Vals \cap seen = {})
Fill == /\ IsEv("fill") /\ Holds(FillOK)
        /\ seen' = IF Wide(R0) THEN seen \cup Vals ELSE seen
        /\ UNCHANGED ctx
\* Windows of forty elements of a long array: no two are alike, none repeats itself.
BulkOK == LET distinct(s) == {s[i] : i \in 1..Len(s)} IN
  /\ \A k \in 1..Len(Ev.w) : \A i \in 1..Len(Ev.w[k]) : IsElem(R0, Ev.w[k][i])
  /\ NBitLen(R0.m) > 2 => \A k \in 1..Len(Ev.w) :
       /\ Cardinality(distinct(Ev.w[k])) >= IF NBitLen(R0.m) > 16 THEN 36 ELSE 3
       /\ \A j \in 1..(k-1) : Ev.w[j] = Ev.w[k] => Ev.at[j] = Ev.at[k]
  /\ Wide(R0) => \A k \in 1..Len(Ev.w) : Cardinality(distinct(Ev.w[k])) = Len(Ev.w[k])
\* Every bit of every element of a word type varies.
ThinOK == Ev.ty \notin Modular /\ Ev.thin = <<>>
Next == \/ Check("bulk", BulkOK) \/ Check("thin", ThinOK) \/ DoInstall \/ Fill \/ Check("size", SizeOK) \/ Check("enc", EncOK) \/ Check("dec", DecOK)
        \/ Check("bits", BitsOK) \/ Check("pow2s", Pow2sOK) \/ Check("can", CanOK) \/ Check("cover", CoverOK)
=============================================================================
