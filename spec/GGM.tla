-------------------------------- MODULE GGM ---------------------------------
(***************************************************************************)
(* Seed trees.  A tree of arity a and n leaves has levels 1..L; level L has *)
(* n nodes, level i has ceil(size(i+1) / a).  Node numbers are 0-based as   *)
(* in the code; child j (0-based) of node k is node a*k + j one level down. *)
(*                                                                         *)
(* The first part is the arithmetic of shapes, shared by the design model   *)
(* (GGMMC) and the trace specification (T_GGM); the second part gives the   *)
(* concrete values.                                                        *)
(***************************************************************************)
EXTENDS AES, Integers

CeilDiv(x, a) == (x + a - 1) \div a
\* Sizes of the levels, from the root, for L levels (the root may be repeated).
Sizes(a, n, L) ==
  FoldLeft(LAMBDA acc, k : <<CeilDiv(acc[1], a)>> \o acc, <<n>>, Idx(L - 1))
\* Least number of levels such that the first has a single node.
RECURSIVE MinLevels(_, _)
MinLevels(a, n) == IF n = 1 THEN 1 ELSE 1 + MinLevels(a, CeilDiv(n, a))
RECURSIVE IsPower(_, _)
IsPower(a, n) == n = 1 \/ (n % a = 0 /\ IsPower(a, n \div a))
\* The code computes the number of levels with floating point logarithms, which
\* may give one level more than needed when n is a power of a.
LevelsOK(a, n, L) == L = MinLevels(a, n) \/ (IsPower(a, n) /\ L = MinLevels(a, n) + 1)
\* Node on level i of the path to leaf m.
RECURSIVE Ancestor(_, _, _)
Ancestor(m, a, up) == IF up = 0 THEN m ELSE Ancestor(m \div a, a, up - 1)
OnPath(m, a, L, i, k) == k = Ancestor(m, a, L - i)

-----------------------------------------------------------------------------
(* Concrete values: naturals below 2^128, in memory least significant byte first. *)
Expand(parent, key) == NXor(NatOfLE(AESEnc(BytesOfLE(key, 16), BytesOfLE(parent, 16))), parent)
ShapeOK(levels, a, n) ==
  /\ LevelsOK(a, n, Len(levels))
  /\ LET sz == Sizes(a, n, Len(levels)) IN \A i \in 1..Len(levels) : Len(levels[i]) = sz[i]
TreeOK(levels, a, n, seed, keys) ==
  /\ ShapeOK(levels, a, n)
  /\ levels[1][1] = seed
  /\ \A i \in 2..Len(levels) : \A k \in 1..Len(levels[i]) :
       levels[i][k] = Expand(levels[i-1][((k-1) \div a) + 1], keys[((k-1) % a) + 1])
XorAll(s) == FoldLeft(LAMBDA acc, x : NXor(acc, x), "0", s)
\* The j-th children (1-based) of a level.
JthChildren(level, a, j) == [t \in 1..((Len(level) + a - j) \div a) |-> level[(t-1)*a + j]]
SiblingSums(levels, a) ==
  [i \in 1..(Len(levels) - 1) |-> [j \in 1..a |-> XorAll(JthChildren(levels[i+1], a, j))]]
\* `got` is the tree rebuilt without the path to leaf m.
PuncturedOK(levels, got, a, m) ==
  LET L == Len(levels) IN
  /\ Len(got) = L
  /\ \A i \in 1..L : Len(got[i]) = Len(levels[i])
  /\ \A i \in 1..L : \A k \in 1..Len(levels[i]) :
       IF OnPath(m, a, L, i, k-1) THEN got[i][k] # levels[i][k] ELSE got[i][k] = levels[i][k]
=============================================================================
