------------------------------ MODULE MpfssMC -------------------------------
(***************************************************************************)
(* Design model of multi-point sharing of x*y: every assignment of B bucket *)
(* candidates (two hash functions) to S output positions, every index set,  *)
(* every legal placement, all values over Z_M, single-point sharing as an   *)
(* ideal functionality.                                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt
CONSTANTS M, S, B
VARIABLES h, place, x, y, u, v, masked, po, ro, pc
vars == <<h, place, x, y, u, v, masked, po, ro, pc>>
Zm == 0..(M-1)
Pos == 1..S
Bkt == 1..B
Cands == {c \in SUBSET Bkt : Cardinality(c) \in 1..2}
None == 0
Indices == {k \in Pos : \E i \in Bkt : place[i] = k}
Init == /\ h \in [Pos -> Cands]
        /\ place \in [Bkt -> 0..S]
        /\ \A i \in Bkt : place[i] # None => i \in h[place[i]]
        /\ \A i, j \in Bkt : place[i] # None /\ place[i] = place[j] => i = j
        /\ \E i \in Bkt : place[i] # None
        /\ x \in Zm /\ y \in [Pos -> Zm] /\ \A k \in Pos : k \notin Indices => y[k] = 0
        /\ u \in [Bkt -> Zm] /\ v \in [Bkt -> Zm]
        /\ masked = <<>> /\ po = <<>> /\ ro = <<>> /\ pc = "mask"
w(i) == (u[i] * x + v[i]) % M
YAt(i) == IF place[i] = None THEN 0 ELSE y[place[i]]
Mask == /\ pc = "mask" /\ pc' = "share" /\ masked' = [i \in Bkt |-> (YAt(i) + u[i]) % M]
        /\ UNCHANGED <<h, place, x, y, u, v, po, ro>>
\* Per bucket: shares masked*x - w and v of x*y; the point goes to one position of
\* the bucket (any, where the bucket holds no index: the value shared is 0).
PShare(i) == (masked[i] * x + M - w(i)) % M
Bucket(i) == {k \in Pos : i \in h[k]}
SumF(f(_), T) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, SetToSeq(T)) % M
Share == /\ pc = "share" /\ pc' = "done"
         /\ LET at == [i \in Bkt |-> IF place[i] # None THEN place[i] ELSE IF Bucket(i) = {} THEN 0 ELSE CHOOSE k \in Bucket(i) : TRUE]
                pt(i, k) == IF at[i] = k THEN (PShare(i) + v[i]) % M ELSE 0
                r(i, k) == (i + k) % M              \* some share of the ideal functionality
            IN /\ po' = [k \in Pos |-> LET f(i) == (pt(i, k) + M - r(i, k)) % M IN SumF(f, h[k])]
               /\ ro' = [k \in Pos |-> LET f(i) == r(i, k) IN SumF(f, h[k])]
         /\ UNCHANGED <<h, place, x, y, u, v, masked>>
Next == Mask \/ Share
Spec == Init /\ [][Next]_vars
Correct == pc = "done" => \A k \in Pos : (po[k] + ro[k]) % M = (x * y[k]) % M
\* For each masked vector and each secret there is exactly one mask vector.
Hidden == pc = "share" => \A i \in Bkt : Cardinality({z \in Zm : (YAt(i) + z) % M = masked[i]}) = 1
=============================================================================
