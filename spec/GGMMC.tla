------------------------------- MODULE GGMMC --------------------------------
(***************************************************************************)
(* Puncturing as an algorithm, with symbolic values: the true value of node *)
(* k on level i is the unknown <<i, k>>; sums of values are sets of unknowns*)
(* (exclusive or is symmetric difference).  A node's children can be        *)
(* computed exactly when its value is known.  The rebuilding party gets,    *)
(* per level, the sums of the j-th children for every j off the path, and   *)
(* works level by level.  All shapes and positions up to the bounds.        *)
(***************************************************************************)
EXTENDS GGM, FiniteSets
CONSTANTS MaxArity, MaxLeaves
VARIABLES a, n, m, L, level, val      \* val[i][k]: sum held for the node, {} = nothing
vars == <<a, n, m, L, level, val>>

Sz == Sizes(a, n, L)
XorSets(x, y) == (x \cup y) \ (x \cap y)
Nodes(i) == 0..(Sz[i] - 1)
TrueSum(i, j) == {<<i, k>> : k \in {k \in Nodes(i) : k % a = j}}
Held(i, j, v) == FoldLeft(LAMBDA acc, t : IF t - 1 \in Nodes(i) /\ (t - 1) % a = j THEN XorSets(acc, v[i][t]) ELSE acc,
                          {}, Idx(Sz[i]))
\* Expanding the subtree below node k of level i, whose value is known.
Below(i, k, r) == Ancestor(k, a, r)    \* ancestor of k, r levels up
Init ==
  /\ a \in 2..MaxArity /\ n \in 1..MaxLeaves /\ m \in 0..(MaxLeaves - 1) /\ m < n
  /\ L \in {MinLevels(a, n), MinLevels(a, n) + 1} /\ (LevelsOK(a, n, L) = TRUE)
  /\ level = 1 /\ val = [i \in 1..L |-> [k \in 1..Sizes(a, n, L)[i] |-> {}]]
P(i) == Ancestor(m, a, L - i)
Step ==
  /\ level < L
  /\ level' = level + 1
  /\ LET i == level + 1
         base == P(level) * a
         sib == {k \in Nodes(i) : k \div a = P(level) /\ k # P(i)}
         new(k) == XorSets(Held(i, k % a, val), TrueSum(i, k % a))
     IN val' = [r \in 1..L |-> [t \in 1..Sz[r] |->
           IF r < i THEN val[r][t]
           ELSE LET anc == Ancestor(t - 1, a, r - i) IN
                IF anc \in sib
                THEN (IF r = i THEN new(t - 1)
                      ELSE IF new(anc) = {<<i, anc>>} THEN {<<r, t - 1>>} ELSE {<<0, r, t - 1>>})
                ELSE val[r][t]]]
  /\ UNCHANGED <<a, n, m, L>>
Next == Step
\* Levels done so far are right off the path and empty on it.
Correct == \A i \in 1..level : \A k \in Nodes(i) :
             val[i][k + 1] = IF k = P(i) THEN {} ELSE {<<i, k>>}
\* No combination of what was given yields a value on the path.
Given == UNION {{TrueSum(i, j) : j \in (0..(a-1)) \ {P(i) % a}} : i \in 2..L}
Known == {<<i, k>> \in UNION {{i} \X Nodes(i) : i \in 1..L} : val[i][k + 1] # {}}
Secret == level < L \/
  \A S \in SUBSET Given :
    LET sum == FoldLeft(LAMBDA acc, x : XorSets(acc, x), {}, SetToSeq(S)) IN ~ \E i \in 1..L : sum \ Known = {<<i, P(i)>>}
=============================================================================
