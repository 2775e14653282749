------------------------------ MODULE T_AesGen ------------------------------
EXTENDS AesGen, TraceBase
VARIABLES gens, lim
vars == <<gens, lim>>
None == [seed |-> "", pos |-> "0", buf |-> 0, dead |-> FALSE]
Init == l = 1 /\ gens = [g \in 1..6 |-> None] /\ lim = "0"
\* The limit the generator was compiled with; the shipped one is 2^48 blocks.
Limit == /\ IsEv("limit")
         /\ Holds(Ev.scaled \/ Ev.v = NPow2(48)) /\ Ev.min = "0" /\ Ev.max = "ffffffffffffffff"
         /\ lim' = Ev.v /\ UNCHANGED gens
Enough(seed) == Len(seed) >= 64
Create == /\ IsEv("create")
          /\ IF Enough(Ev.seed) THEN Ev.code = "OK" /\ gens' = [gens EXCEPT ![Ev.g] = New(Ev.seed, Ev.buf)]
             ELSE Ev.code = "INVALID_ARGUMENT" /\ gens' = gens
          /\ UNCHANGED lim
Seed == /\ IsEv("seed")
        /\ IF Enough(Ev.seed) THEN Ev.code = "OK" /\ gens' = [gens EXCEPT ![Ev.g] = Reseed(@, Ev.seed)]
           ELSE Ev.code = "INVALID_ARGUMENT" /\ gens' = gens
        /\ UNCHANGED lim
Copy == IsEv("copy") /\ gens' = [gens EXCEPT ![Ev.g] = gens[Ev.from]] /\ UNCHANGED lim
\* Values were drawn and recorded.
N == NFromInt(Len(Ev.v))
Draw == /\ IsEv("draw")
        /\ Holds(MayEmit(gens[Ev.g], N, lim))
        /\ Holds(\A i \in 1..Len(Ev.v) : Ev.v[i] = ValueAt(gens[Ev.g].seed, NAdd(gens[Ev.g].pos, NFromInt(i-1))))
        /\ gens' = [gens EXCEPT ![Ev.g] = Advance(@, N)] /\ UNCHANGED lim
\* Many values were drawn without recording them.
Skip == /\ IsEv("skip") /\ Holds(MayEmit(gens[Ev.g], Ev.n, lim))
        /\ gens' = [gens EXCEPT ![Ev.g] = Advance(@, Ev.n)] /\ UNCHANGED lim
Thrown == /\ IsEv("throw") /\ Holds(MayRefuse(gens[Ev.g], lim))
          /\ gens' = [gens EXCEPT ![Ev.g] = Refuse(@)] /\ UNCHANGED lim
Next == Limit \/ Create \/ Seed \/ Copy \/ Draw \/ Skip \/ Thrown
=============================================================================
