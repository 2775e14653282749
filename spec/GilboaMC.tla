------------------------------ MODULE GilboaMC ------------------------------
(***************************************************************************)
(* Design model of the Gilboa product of two elements of Z_M: all masks,    *)
(* inputs and moduli up to MaxM; and packing of several elements per word.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt
CONSTANTS MaxM, Pack
VARIABLES m, x, y, r, po, ro, pc
vars == <<m, x, y, r, po, ro, pc>>
RECURSIVE BitLen(_)
BitLen(k) == IF k = 0 THEN 0 ELSE 1 + BitLen(k \div 2)
W == BitLen(m - 1)                       \* bits of an element (the code rounds up to bytes)
Bit(k, j) == (k \div 2^j) % 2
Init == /\ m \in 2..MaxM /\ x \in 0..(m-1) /\ y \in [1..Pack -> 0..(m-1)]
        /\ r \in [1..Pack -> [0..(W-1) -> 0..(m-1)]]
        /\ po = <<>> /\ ro = <<>> /\ pc = "ot"
\* Message pair j: words packing r and r + 2^j y; the scalar's owner picks by bit j of x.
Word(f(_)) == FoldLeft(LAMBDA acc, k : acc + f(k) * 2^((k-1) * W), 0, [k \in 1..Pack |-> k])
Un(word, k) == (word \div 2^((k-1) * W)) % 2^W
M0(j) == LET f(k) == r[k][j] IN Word(f)
M1(j) == LET f(k) == (r[k][j] + 2^j * y[k]) % m IN Word(f)
Got(j) == IF Bit(x, j) = 1 THEN M1(j) ELSE M0(j)
Sum(f(_)) == FoldLeft(LAMBDA acc, j : acc + f(j), 0, [i \in 1..W |-> i - 1]) % m
Run == /\ pc = "ot" /\ pc' = "done"
       /\ ro' = [k \in 1..Pack |-> LET f(j) == Un(Got(j), k) IN Sum(f)]
       /\ po' = [k \in 1..Pack |-> LET f(j) == m - r[k][j] IN Sum(f)]
       /\ UNCHANGED <<m, x, y, r>>
Next == Run
Spec == Init /\ [][Next]_vars
Correct == pc = "done" => \A k \in 1..Pack : (po[k] + ro[k]) % m = (x * y[k]) % m
RoundTrip == \A j \in 0..(W-1) : \A k \in 1..Pack : Un(M0(j), k) = r[k][j]
=============================================================================
