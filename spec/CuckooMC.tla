------------------------------ MODULE CuckooMC ------------------------------
(***************************************************************************)
(* The insertion algorithm, step by step, for every assignment of positions *)
(* to N inputs (K functions, M buckets).                                    *)
(***************************************************************************)
EXTENDS Cuckoo
CONSTANTS N, K, M, Tries
VARIABLES pos, table, nexthf, i, cur, hf, tries, result
vars == <<pos, table, nexthf, i, cur, hf, tries, result>>
Init ==
  /\ pos \in [1..N -> [1..K -> 0..(M-1)]]
  /\ table = [b \in 1..M |-> -1] /\ nexthf = [b \in 1..M |-> 0]
  /\ i = 0 /\ cur = 0 /\ hf = 0 /\ tries = 0 /\ result = "running"
NextInput == /\ i' = i + 1 /\ cur' = i + 1 /\ hf' = 0 /\ tries' = 0
             /\ result' = IF i + 1 = N THEN "ok" ELSE "running"
Step ==
  /\ result = "running" /\ UNCHANGED pos
  /\ IF tries = Tries THEN result' = "failed" /\ UNCHANGED <<table, nexthf, i, cur, hf, tries>>
     ELSE LET b == pos[cur + 1][hf + 1] + 1 IN
       IF table[b] = -1
       THEN table' = [table EXCEPT ![b] = cur] /\ UNCHANGED nexthf /\ NextInput
       ELSE /\ table' = [table EXCEPT ![b] = cur] /\ cur' = table[b]
            /\ hf' = nexthf[b] /\ nexthf' = [nexthf EXCEPT ![b] = (hf + 1) % K]
            /\ tries' = tries + 1 /\ UNCHANGED <<i, result>>
Next == Step
Placed == {table[b] : b \in {b \in 1..M : table[b] # -1}}
\* Nothing is lost or duplicated on the way: inputs before i are in the table or in hand.
Conserved == result = "running" =>
  /\ Placed \cup {cur} = 0..i
  /\ Cardinality({b \in 1..M : table[b] # -1}) = i
ValidAlways == \A b \in 1..M : table[b] # -1 => \E j \in 1..K : pos[table[b] + 1][j] = b - 1
Success == result = "ok" => TableOK(table, pos, M)
\* Hall's condition, by brute force: with enough tries, failure means there is no placement.
Placeable == \A S \in SUBSET (1..N) : Cardinality(UNION {{pos[t][j] : j \in 1..K} : t \in S}) >= Cardinality(S)
HopelessFails == result = "ok" => Placeable /\ ~ Hopeless(pos)
Complete == result = "failed" => ~ Placeable
=============================================================================
