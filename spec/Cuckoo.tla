------------------------------- MODULE Cuckoo -------------------------------
(***************************************************************************)
(* Hashing of elements (128-bit words) to buckets, simple and cuckoo        *)
(* hashing.  Element numbers and buckets are 0-based as in the code.        *)
(***************************************************************************)
EXTENDS AES, Integers, FiniteSets, TLC

\* The keyed hash: AES under the seed, of the word, exclusive-or the word.
H128(seed, x) == NXor(NatOfLE(AESEnc(BytesOfLE(seed, 16), BytesOfLE(x, 16))), x)
\* Function j of k hash functions to m buckets (m: natural in hex).
HexPositions(seed, x, k, m) ==
  LET h == H128(seed, x)
  IN TLCEval([j \in 1..k |-> NMod(IF j = 1 THEN h ELSE H128(seed, NXor(h, NFromInt(j-1))), m)])
Positions(seed, x, k, m) == LET h == HexPositions(seed, x, k, m) IN TLCEval([j \in 1..k |-> NToInt(h[j])])

\* Simple hashing: `pos` is a sequence of position sequences, one per input.
Occurrences(s, b) == FoldLeft(LAMBDA acc, p : IF p = b THEN acc + 1 ELSE acc, 0, s)
RECURSIVE Repeat(_, _)
Repeat(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Repeat(x, k - 1)
BucketOf(pos, b) == FoldLeft(LAMBDA acc, i : acc \o Repeat(i - 1, Occurrences(pos[i], b)), <<>>, Idx(Len(pos)))
\* Evaluated input by input (the same thing, in linear time).
SimpleTable(pos, m) ==
  FoldLeft(LAMBDA acc, i : FoldLeft(LAMBDA t, b : [t EXCEPT ![b + 1] = Append(@, i - 1)], acc, pos[i]),
           [b \in 1..m |-> <<>>], Idx(Len(pos)))

\* Cuckoo hashing: a table maps buckets to inputs or -1.
TableOK(table, pos, m) ==
  /\ Len(table) = m
  /\ \A b \in 1..m : table[b] # -1 =>
       /\ table[b] >= 0 /\ table[b] < Len(pos)
       /\ \E j \in 1..Len(pos[table[b] + 1]) : pos[table[b] + 1][j] = b - 1
  /\ Cardinality({table[b] : b \in {b \in 1..m : table[b] # -1}}) = Len(pos)
  /\ Cardinality({b \in 1..m : table[b] # -1}) = Len(pos)
\* For some set of inputs there are fewer positions than inputs: nothing can succeed.
\* (Repeated inputs are the practical case; checked for groups of equal inputs.)
Hopeless(pos) ==
  /\ Cardinality({pos[i] : i \in 1..Len(pos)}) < Len(pos)
  /\ \E i \in 1..Len(pos) :
    Cardinality({t \in 1..Len(pos) : pos[t] = pos[i]}) > Cardinality({pos[i][j] : j \in 1..Len(pos[i])})

\* The statistical error allowed for a wrong pair of 128-bit hashes:
\*   sec + log2(n * k * m) > 128 is refused.  sec4 is four times sec.
TooSmall(sec4, n, k, m) ==
  n > 0 /\ LET q == NMul(NMul(NFromInt(n), NFromInt(k)), m) q4 == NMul(NMul(q, q), NMul(q, q))
           IN NLess(NPow2(512), NShl(q4, sec4))
TooSmallEdge(sec4, n, k, m) ==     \* left to floating point
  n > 0 /\ LET q == NMul(NMul(NFromInt(n), NFromInt(k)), m) q4 == NShl(NMul(NMul(q, q), NMul(q, q)), sec4)
               d == IF NLess(q4, NPow2(512)) THEN NSub(NPow2(512), q4) ELSE NSub(q4, NPow2(512))
           IN NLess(NShl(d, 30), NPow2(512))
=============================================================================
