------------------------------ MODULE T_Proto -------------------------------
EXTENDS Proto, TraceBase
VARIABLES seen,      \* random material of earlier runs (trees)
          masks,     \* masks of earlier Gilboa runs
          shapes     \* number of OTs of each MPFSS instance and size
vars == <<seen, masks, shapes>>
Init == l = 1 /\ seen = {} /\ masks = {} /\ shapes = <<>>
Quiet == UNCHANGED vars
R == Ev.R
Done == Ev.codes = <<"OK", "OK">>
Whole(ids, p) == ForAny(ids \cup {"X01", "X02"}, Done /\ Ev.left = 0 /\ p)

SessionStarts == IsEv("session") /\ UNCHANGED <<seen, masks>> /\ shapes' = <<>>
New == IsEv("new") /\ ForAny({"O01", "P01", "M01", "B01", "X01", "X02", "E01", "M02"}, Done /\ Ev.left = 0) /\ Quiet

\* Everything random is new (judged for O03 only: the sets grow).
Fresh(e) ==
  LET m == Material(e.R, e) \o Leaves(e.R, e) IN
  /\ AllDistinct(m) /\ SetOf(m) \cap seen = {}
  /\ e.drawn >= Needed(e)
Remember(e) == seen' = IF Prop = "O03" THEN seen \cup SetOf(Material(e.R, e)) \cup SetOf(Leaves(e.R, e)) ELSE seen

Rot == /\ IsEv("rot") /\ Whole({"O01", "E01"}, RotOK(R, Ev))
       /\ For("O02", Done => RotViewOK(R, Ev))
       /\ For("O03", Done => Fresh(Ev)) /\ Remember(Ev) /\ UNCHANGED <<masks, shapes>>
\* What masks the value share was not used before.
LostSet == SetOf(LostLeaves(R, Ev))
MaskNew == Wide(R) => AllDistinct(LostLeaves(R, Ev)) /\ LostSet \cap seen = {}
Spfss == /\ IsEv("spfss") /\ Whole({"P01", "E01"}, SpfssOK(R, Ev))
         /\ For("P02", Done => (SpfssViewOK(R, Ev) /\ MaskNew))
         /\ For("O03", Done => Fresh(Ev))
         /\ (IF Prop = "P02" THEN seen' = (IF Done /\ Wide(R) THEN seen \cup LostSet ELSE seen) ELSE Remember(Ev)) /\ UNCHANGED <<masks, shapes>>

MaskWords == Masks1of2(Ev)
MaskElems == Flat([i \in 1..Len(MaskWords) |-> Unpack(R, MaskWords[i])])
SecondElems == LET s == Seconds1of2(Ev) IN Flat([i \in 1..Len(s) |-> Unpack(R, s[i])])
MasksOK ==
  /\ GilFlavour(Ev)
  /\ UsesCot(Ev) => CotAllowed(R, Ev.ty, Ev.sec4, Len(Ev.y))
  /\ IsVec(R, MaskElems) /\ IsVec(R, SecondElems)
  /\ UniformLooking(R, MaskElems)
  /\ WordEntropy(R) >= 56 => (AllDistinct(MaskWords) /\ SetOf(MaskWords) \cap masks = {})
  /\ Wide(R) => AllDistinct(MaskElems)
Gilboa == /\ IsEv("gilboa") /\ Whole({"B01", "E01"}, GilboaOK(R, Ev))
          /\ For("B02", Done /\ MasksOK)
          /\ masks' = (IF Prop = "B02" /\ WordEntropy(R) >= 56 THEN masks \cup SetOf(MaskWords) ELSE masks)
          /\ UNCHANGED <<seen, shapes>>
\* Packing and unpacking a word.
PackOK == /\ IF Len(Ev.in) = Stride(R) THEN Ev.out = Ev.in ELSE SubSeq(Ev.out, 1, Len(Ev.in)) = Ev.in
          /\ Len(Ev.out) = Stride(R)
Pack == IsEv("pack") /\ For("B02", PackOK) /\ Quiet
WideRefused == /\ IsEv("wide") /\ ForAny({"B01", "E01"}, RBytes(R) > 16 /\ Ev.code = "INVALID_ARGUMENT" /\ Ev.moved = 0 /\ Ev.same) /\ Quiet

ShapeKey == <<Ev.inst, Ev.size, Ev.nb>>
Ots == OtCount(Sends(Ev, Ev.prov))
\* The number of OTs depends on sizes only; all buckets are there.
BucketsOK == /\ \A k \in 1..Len(shapes) : shapes[k][1] = ShapeKey => shapes[k][2] = Ots
             /\ LET ms == SelectSeq(MsgsOf(Ev, Ev.prov), LAMBDA m : m.dec) IN ClearElems(ms) = Ev.nb
Mpfss == /\ IsEv("mpfss") /\ Holds(Ev.nb < 0 \/ Correlated(R, Ev))
         /\ Whole({"M01", "M02"}, MpfssOK(R, Ev))
         /\ For("M03", Done => MaskedOK(R, Ev) /\ BucketsOK)
         /\ shapes' = (IF Prop = "M03" /\ Done THEN Append(shapes, <<ShapeKey, Ots>>) ELSE shapes)
         /\ UNCHANGED <<seen, masks>>

\* Two executions whose secrets differ look the same.
PairProp == CASE Ev.what = "rot-provider" -> "O02" [] Ev.what \in {"spfss-provider", "spfss-empty"} -> "P02"
              [] Ev.what = "gilboa-vector" -> "B02" [] Ev.what = "threads" -> "X01" [] OTHER -> "M03"
PairOK == /\ Ev.ca = <<"OK", "OK">> => (Ev.ca = Ev.cb /\ Ev.va = Ev.vb)
          /\ Ev.what \in {"rot-provider", "spfss-provider", "mpfss-value", "threads"} => Ev.oa = Ev.ob
Pair == IsEv("pair") /\ For(PairProp, PairOK) /\ Quiet

\* Refusals.
RefuseOK == /\ Ev.code = "INVALID_ARGUMENT" /\ Ev.moved = 0
            /\ Ev.kind # "mpfss" => Ev.same
Refuse == IsEv("refuse") /\ For(IF Ev.kind = "mpfss" THEN "M02" ELSE "E01", RefuseOK) /\ Quiet
\* Sizes that may be too large for the instance: refused by both, or served.
AttemptOK == /\ Ev.left = 0 /\ Ev.codes[1] = Ev.codes[2]
             /\ IF Done THEN MpfssOK(R, Ev) ELSE Ev.codes[1] = "INVALID_ARGUMENT" /\ Ev.moved = 0
Attempt == IsEv("attempt") /\ For("M02", AttemptOK) /\ Quiet
BiasOK == /\ BorderlineTotal(R, Ev.ty, Ev.sec4, Ev.total) \/ (Ev.refused = ~ HashableTotal(R, Ev.ty, Ev.sec4, Ev.total))
          /\ Ev.refused => (Ev.moved = 0 /\ Ev.same)
Bias == IsEv("bias") /\ For("O03", BiasOK) /\ Quiet
\* Changing a random byte of the provider changes its keys or its trees: each
\* tree of two or more leaves depends on 16 bytes that the keys do not depend on.
EntropyOK == /\ Done
             /\ Wide(R) => \A i \in 1..Len(Ev.n) : Ev.n[i] > 1 => Ev.own[i] >= 16
             /\ Ev.raw => Ev.keys >= KeyBytes
Entropy == IsEv("entropy") /\ ForAny({"O02", "O03", "P02"}, EntropyOK) /\ Quiet
End == IsEv("end") /\ For("X02", Done /\ Ev.left = 0) /\ Quiet
Next == SessionStarts \/ New \/ Rot \/ Spfss \/ Gilboa \/ Pack \/ WideRefused \/ Mpfss \/ Pair \/ Refuse \/ Bias \/ Attempt \/ Entropy \/ End
=============================================================================
