------------------------------- MODULE PprfMC -------------------------------
(***************************************************************************)
(* Design model of all-but-one OT: what the receiver can derive.           *)
(* Nodes of a binary tree of N leaves are symbols; an expanded node gives   *)
(* its children; the receiver obtains, for each level below the root, the   *)
(* sum (exclusive or) of the left or of the right children, as chosen by    *)
(* the negated bits of its index.  A sum with a single unknown term gives   *)
(* that term.  Claim: the closure is exactly everything off the path.       *)
(***************************************************************************)
EXTENDS GGM, FiniteSets, TLC
CONSTANT MaxN
VARIABLES nl, miss, extra, known
vars == <<nl, miss, extra, known>>
L == MinLevels(2, nl) + extra
Sz == Sizes(2, nl, L)
Nodes == UNION {{<<i, k>> : k \in 0..(Sz[i]-1)} : i \in 1..L}
Path == {<<i, Ancestor(miss, 2, L - i)>> : i \in 1..L}
Choice(i) == 1 - (Ancestor(miss, 2, L - i) % 2)        \* the side the path is not on
Received == {{<<i, k>> : k \in {q \in 0..(Sz[i]-1) : q % 2 = Choice(i)}} : i \in 2..L}
Children(v) == {<<v[1]+1, k>> : k \in {q \in {2*v[2], 2*v[2]+1} : v[1] < L /\ q < Sz[v[1]+1]}}
Init == /\ nl \in 1..MaxN /\ miss \in 0..(nl-1)
        /\ extra \in {0} \cup (IF IsPower(2, nl) THEN {1} ELSE {})
        /\ known = {}
ExpandNode == \E v \in known : Children(v) \ known # {} /\ known' = known \cup Children(v)
Solve == \E s \in Received : Cardinality(s \ known) = 1 /\ known' = known \cup s
Next == (ExpandNode \/ Solve) /\ UNCHANGED <<nl, miss, extra>>
Spec == Init /\ [][Next]_vars
PathHidden == known \cap Path = {}
Complete == (~ ENABLED Next) => known = Nodes \ Path
=============================================================================
