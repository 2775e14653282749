---------------------------- MODULE SimpleHashMC ----------------------------
(***************************************************************************)
(* Parallel simple hashing: every thread appends its contiguous chunk of    *)
(* inputs to buckets of its own; then each thread in turn (ordered) appends *)
(* its buckets to the result.  All interleavings, for every assignment of   *)
(* two hash functions.  A thread may start merging only when all have       *)
(* hashed their chunks of the *input* loop it depends on: the loops are not *)
(* separated by a barrier, so only the thread's own chunk is complete.      *)
(***************************************************************************)
EXTENDS Cuckoo
CONSTANTS N, K, M, T
VARIABLES pos, done, own, merged, result
vars == <<pos, done, own, merged, result>>
\* schedule(static): contiguous chunks, the first N % T threads get one more.
Start(t) == LET q == N \div T r == N % T IN (t-1) * q + (IF t - 1 < r THEN t - 1 ELSE r)
Size(t) == (N \div T) + (IF t - 1 < N % T THEN 1 ELSE 0)
Init == /\ pos \in [1..N -> [1..K -> 0..(M-1)]]
        /\ done = [t \in 1..T |-> 0] /\ own = [t \in 1..T |-> [b \in 1..M |-> <<>>]]
        /\ merged = 0 /\ result = [b \in 1..M |-> <<>>]
Hash(t) == /\ done[t] < Size(t)
           /\ LET i == Start(t) + done[t]
              IN own' = [own EXCEPT ![t] = FoldLeft(LAMBDA acc, b : [acc EXCEPT ![b+1] = Append(@, i)], @, pos[i+1])]
           /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pos, merged, result>>
Merge(t) == /\ done[t] = Size(t) /\ merged = t - 1
            /\ result' = [b \in 1..M |-> result[b] \o own[t][b]]
            /\ merged' = t /\ UNCHANGED <<pos, done, own>>
Next == \E t \in 1..T : Hash(t) \/ Merge(t)
Correct == merged = T => \A b \in 1..M : result[b] = BucketOf(pos, b-1) /\ result[b] = SimpleTable(pos, M)[b]
=============================================================================
