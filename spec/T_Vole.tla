------------------------------- MODULE T_Vole -------------------------------
EXTENDS Vole, TraceBase
VARIABLES gens,      \* generators of the session
          used,      \* sender elements that were delivered, or used as seed or mask
          noise,     \* noise seen: sets of positions with the output size, values
          words,     \* elements the sender sent
          tally      \* noise positions by their place in the output, in 96 parts
vars == <<gens, used, noise, words, tally>>
Init == l = 1 /\ gens = <<>> /\ used = {} /\ noise = {} /\ words = {} /\ tally = [b \in 0..95 |-> 0]
Quiet == UNCHANGED vars
R == Ev.R
Done == Ev.codes = <<"OK", "OK">> /\ Ev.left = 0
All == {"V01", "V04", "V05", "X01", "X02"}
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

SessionStarts == /\ IsEv("session") /\ gens' = <<>> /\ used' = {} /\ noise' = {} /\ words' = {} /\ UNCHANGED tally
T == [out |-> Ev.out, seed |-> Ev.seed, noise |-> Ev.noise, nb |-> Ev.nb, nz |-> Ev.nz]
\* One generator per role assignment.
NewGen == [t |-> T, batch |-> 0, delta |-> "?", deltas |-> {}, exps |-> 0, avail |-> 0]
New == /\ IsEv("new") /\ ForAny(All, Done)
       /\ For("V03", IF Ev.shipped THEN AsStrong(T) ELSE TableOK(T))
       /\ gens' = Append(gens, <<NewGen, NewGen>>)
       /\ UNCHANGED <<used, noise, words, tally>>

G == gens[Ev.inst + 1][Ev.prov + 1]
\* V02, by value where random elements differ.
NowUsed == Flat([k \in 1..Len(Ev.exps) |-> Used(Ev.exps[k])])
FreshUse(delivered) ==
  LET s == NowUsed \o delivered IN Big(R) => (AllDistinct(s) /\ SetOf(s) \cap used = {})
Remember(delivered) == used' = IF Prop = "V02" /\ Big(R) THEN used \cup SetOf(NowUsed) \cup SetOf(delivered) ELSE used
SentElems == Flat([k \in 1..Len(Ev.sent) |-> Ev.sent[k].el])
FreshWords(u, v) ==
  Big(R) => /\ AllDistinct(SentElems) /\ SetOf(SentElems) \cap words = {}
            /\ (SetOf(u) \cup SetOf(v)) \cap (words \cup SetOf(SentElems)) = {}
RememberWords == words' = IF Prop = "V02" /\ Big(R) THEN words \cup SetOf(SentElems) ELSE words
FreshNoise ==
  /\ \A k \in 1..Len(Ev.exps) :
       LET e == Ev.exps[k] IN
       Len(e.idx) >= 6 /\ e.cols >= 60 => <<e.cols, SetOf(e.idx)>> \notin noise
  /\ Big(R) => LET s == Flat([k \in 1..Len(Ev.exps) |-> Ev.exps[k].y])
               IN AllDistinct(s) /\ ({<<0, {z}>> : z \in SetOf(s)} \cap noise) = {}
\* Every part of the output is hit by noise (the chance that uniform positions
\* miss one is below 10^-9).
Tally == IF Prop # "V03" THEN tally
         ELSE FoldLeft(LAMBDA acc, k :
                LET e == Ev.exps[k] IN
                IF e.cols < 100 THEN acc ELSE
                FoldLeft(LAMBDA a, i : [a EXCEPT ![(96 * e.idx[i]) \div e.cols] = @ + 1], acc, [i \in 1..Len(e.idx) |-> i]),
                tally, [k \in 1..Len(Ev.exps) |-> k])
Coarse(t, w) == [b \in 0..((96 \div w) - 1) |-> FoldLeft(LAMBDA acc, j : acc + t[b * w + j - 1], 0, [j \in 1..w |-> j])]
SpreadOK(t) ==
  LET total == Coarse(t, 96)[0] hit(w) == \A b \in 0..((96 \div w) - 1) : Coarse(t, w)[b] > 0 IN
  /\ total >= 300 => hit(12)
  /\ total >= 400 => hit(6)
  /\ total >= 1000 => hit(3)
  /\ total >= 3000 => hit(1)
RememberNoise ==
  /\ tally' = Tally
  /\ noise' = IF Prop \in {"V02", "V03"}
           THEN noise \cup {<<Ev.exps[k].cols, SetOf(Ev.exps[k].idx)>> : k \in 1..Len(Ev.exps)}
                      \cup (IF Big(R) THEN {<<0, {z}>> : z \in SetOf(Flat([k \in 1..Len(Ev.exps) |-> Ev.exps[k].y]))} ELSE {})
           ELSE noise
\* V02, by counting.  The first expansion after a precomputation is fed by bootstrapping.
Balance(first, avail0) ==
  FoldLeft(LAMBDA acc, k :
     LET e == Ev.exps[k] IN <<acc[1] + 1, acc[2] + e.cols - (IF acc[1] = 0 THEN 0 ELSE Len(Used(e)))>>,
     <<first, avail0>>, [k \in 1..Len(Ev.exps) |-> k])
Backed(b, lvl) == b[1] = 0 \/ b[2] >= Reserve(G.t, lvl)

ExpsIn(t) == /\ Ev.paired
             /\ \A k \in 1..Len(Ev.exps) : ExpansionOK(R, t, Ev.exps[k])
Consistent(d) ==
  \A k \in 1..Len(Ev.exps) :
    LET e == Ev.exps[k] IN
    /\ Correlated(R, e.su, e.sv, e.sw, e.delta) /\ Correlated(R, e.mu, e.mv, e.mw, e.delta)
    /\ e.full => Correlated(R, e.ou, e.ov, e.ow, e.delta)
    /\ d # "?" => e.delta = d

Pre == /\ IsEv("pre") /\ ForAny(All, Done)
       /\ LET b == Balance(0, 0) d == IF Ev.given THEN Ev.delta ELSE IF Ev.exps = <<>> THEN "?" ELSE Ev.exps[1].delta IN
          /\ For("V02", FreshUse(<<>>) /\ FreshWords(<<>>, <<>>))
          /\ For("V03", ExpsIn(G.t) /\ FreshNoise /\ SpreadOK(Tally))
          /\ For("V04", Consistent(d))
          /\ gens' = [gens EXCEPT ![Ev.inst + 1][Ev.prov + 1] = [@ EXCEPT !.batch = Ev.batch, !.delta = d, !.exps = b[1], !.avail = b[2],
                                                    !.deltas = IF G.delta = "?" THEN @ ELSE @ \cup {G.delta}]]
       /\ Remember(<<>>) /\ RememberNoise /\ RememberWords
\* The first run precomputes for its own size.
Batch == IF G.batch = 0 THEN Ev.size ELSE G.batch
Lvl == Level(G.t, Batch)
\* The expansions for the batch itself come last.
LastLevelOK == Ev.exps # <<>> => Ev.exps[Len(Ev.exps)].rows = G.t.seed[Lvl]
RunOK == /\ Len(Ev.u) = Ev.size /\ Len(Ev.v) = Ev.size /\ Len(Ev.w) = Ev.size
         /\ Correlated(R, Ev.u, Ev.v, Ev.w, Ev.delta)
DeltaOK == /\ IsElem(R, Ev.delta) /\ (G.delta # "?" => Ev.delta = G.delta)
           /\ (G.delta = "?" /\ Big(R)) => (Ev.delta \notin G.deltas /\ Ev.delta # "0")
           /\ Correlated(R, Ev.u, Ev.v, Ev.w, Ev.delta)
RunEv ==
  /\ IsEv("run") /\ ForAny(All, Done) /\ ForAny({"V01", "V05", "X01", "X02"}, RunOK)
  /\ For("V04", Done => DeltaOK /\ Consistent(Ev.delta))
  /\ LET b0 == Balance(G.exps, G.avail) b == <<b0[1], b0[2] - Ev.size>> IN
     /\ For("V02", Done => FreshUse(Ev.u) /\ FreshWords(Ev.u, Ev.v) /\ Backed(b, Lvl))
     /\ For("V03", Done => ExpsIn(G.t) /\ LastLevelOK /\ FreshNoise /\ SpreadOK(Tally))
     /\ gens' = [gens EXCEPT ![Ev.inst + 1][Ev.prov + 1] = [@ EXCEPT !.batch = Batch, !.delta = IF G.delta = "?" THEN Ev.delta ELSE G.delta,
                                                        !.exps = b[1], !.avail = b[2]]]
  /\ Remember(Ev.u) /\ RememberNoise /\ RememberWords
\* A precomputation that both parties refuse, for want of security or because of the
\* modulus, leaves nothing precomputed.
PreFail == /\ IsEv("prefail") /\ For("V05", Ev.codes = <<"INVALID_ARGUMENT", "INVALID_ARGUMENT">> /\ Ev.left = 0)
           /\ For("V02", FreshUse(<<>>) /\ FreshWords(<<>>, <<>>))
           /\ gens' = [gens EXCEPT ![Ev.inst + 1][Ev.prov + 1] = [@ EXCEPT !.batch = 0, !.delta = "?", !.exps = 0, !.avail = 0]]
           /\ Remember(<<>>) /\ RememberNoise /\ RememberWords
RefuseOK == Ev.code = "INVALID_ARGUMENT" /\ Ev.moved = 0 /\ Ev.left = 0
Refuse == IsEv("refuse") /\ For("V05", RefuseOK) /\ Quiet
\* Random bytes that decide the code, the noise positions, the noise values, the
\* first seed and the receiver's own delta: each at least 128 bits, or all there are.
Least(a, b) == IF a < b THEN a ELSE b
EntropyOK == /\ Ev.codes = <<"OK", "OK">>
             /\ Ev.seen => /\ Ev.code >= 16 /\ Ev.idx >= 16
                           /\ Ev.ty \notin Modular => /\ Ev.y >= Least(16, Ev.k * SizeOf(R)) /\ Ev.delta >= SizeOf(R)
                                                       /\ Ev.su >= Least(16, Ev.rows * SizeOf(R))
Entropy == IsEv("entropy") /\ For("V03", EntropyOK) /\ Quiet
Next == Entropy \/ SessionStarts \/ New \/ Pre \/ PreFail \/ RunEv \/ Refuse
=============================================================================
