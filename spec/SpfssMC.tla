------------------------------ MODULE SpfssMC -------------------------------
(***************************************************************************)
(* Design model of single-point sharing over Z_M: all leaves, indices and   *)
(* value shares.  Shares add up, and whatever the index provider knows, the *)
(* correction value takes every value as the missing leaf varies.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt
CONSTANTS M, N
VARIABLES n, leaf, idx, a, b, corr, po, ro, pc
vars == <<n, leaf, idx, a, b, corr, po, ro, pc>>
Zm == 0..(M-1)
Sum(f, S) == FoldLeft(LAMBDA acc, k : acc + f[k], 0, SetToSeq(S)) % M
Init == /\ n \in 1..N /\ leaf \in [1..n -> Zm] /\ idx \in 1..n /\ a \in Zm /\ b \in Zm
        /\ corr = 0 /\ po = <<>> /\ ro = <<>> /\ pc = "provider"
Corr(f) == (a + Sum(f, 1..n)) % M
Provider == /\ pc = "provider" /\ pc' = "index" /\ corr' = Corr(leaf)
            /\ po' = [k \in 1..n |-> (M - leaf[k]) % M] /\ UNCHANGED <<n, leaf, idx, a, b, ro>>
\* The index provider knows all leaves but the one at idx.
Index == /\ pc = "index" /\ pc' = "done"
         /\ ro' = [k \in 1..n |-> IF k = idx THEN (b + corr + (N * M) - Sum(leaf, (1..n) \ {idx})) % M ELSE leaf[k]]
         /\ UNCHANGED <<n, leaf, idx, a, b, corr, po>>
Next == Provider \/ Index
Spec == Init /\ [][Next]_vars
Correct == pc = "done" => \A k \in 1..n : (po[k] + ro[k]) % M = IF k = idx THEN (a + b) % M ELSE 0
Masked == Cardinality({Corr([leaf EXCEPT ![idx] = z]) : z \in Zm}) = M
=============================================================================
