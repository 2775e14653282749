-------------------------------- MODULE Vole --------------------------------
(***************************************************************************)
(* Vector-OLE: what every expansion has to be, and which parameter level    *)
(* serves a batch.  A table is a record [out, seed, noise, nb]: sequences   *)
(* over the levels (largest output, seed size, number of noise positions,   *)
(* number of buckets of that many positions), and nz, the nonzeros sampled  *)
(* per column of the code matrix.                                           *)
(***************************************************************************)
EXTENDS Scalars
SetOf(s) == {s[i] : i \in 1..Len(s)}
AllDistinct(s) == Cardinality(SetOf(s)) = Len(s)
IsVec(R, s) == \A i \in 1..Len(s) : IsElem(R, s[i])
\* Two random elements do not collide.
Big(R) == NBitLen(R.m) > 54

Correlated(R, u, v, w, d) ==
  /\ Len(u) = Len(v) /\ Len(u) = Len(w) /\ IsVec(R, u) /\ IsVec(R, v) /\ IsVec(R, w)
  /\ \A i \in 1..Len(u) : w[i] = RAdd(R, RMul(R, u[i], d), v[i])

\* Levels.
Levels(T) == Len(T.out)
Reserve(T, i) == T.seed[i] + T.nb[i]
Level(T, batch) ==
  LET fits == {i \in 1..Levels(T) : batch <= T.out[i] - Reserve(T, i)}
  IN IF fits = {} THEN Levels(T) ELSE CHOOSE i \in fits : \A j \in fits : i <= j
LevelOfSeed(T, rows) == {i \in 1..Levels(T) : T.seed[i] = rows}
TableOK(T) ==
  /\ Len(T.seed) = Levels(T) /\ Len(T.noise) = Levels(T)
  /\ \A i \in 1..Levels(T) : T.out[i] > Reserve(T, i) /\ T.noise[i] > 0 /\ T.noise[i] <= T.out[i]
  /\ \A i \in 1..(Levels(T)-1) : Reserve(T, i+1) <= T.out[i] /\ T.out[i] < T.out[i+1]

\* The published parameters: no level may be weaker than these.
Published == [out |-> <<4096, 16384, 65536, 616092, 10616092>>, seed |-> <<1589, 3482, 7391, 37248, 588160>>,
              noise |-> <<98, 198, 382, 1254, 1324>>, nz |-> 10]
AsStrong(T) ==
  /\ T.nz >= Published.nz /\ TableOK(T)
  /\ \A i \in 1..Levels(T) : \E j \in 1..Len(Published.out) :
        T.out[i] <= Published.out[j] /\ T.seed[i] >= Published.seed[j] /\ T.noise[i] >= Published.noise[j]

-----------------------------------------------------------------------------
(* One expansion e: rows, cols, code (per column the entries <<row, value>>), *)
(* seeds su, sv, sw, masks mu, mv, mw, noise idx, y, outputs ou, ov, ow.      *)
Column(R, seed, col) == FoldLeft(LAMBDA acc, c : RAdd(R, acc, RMul(R, seed[c[1] + 1], c[2])), "0", col)
Entries(e) == UNION {{<<c, k>> : k \in 1..Len(e.code[c])} : c \in 1..Len(e.code)}
CodeOK(R, nz, e) ==
  /\ Len(e.code) = e.cols
  /\ \A c \in 1..e.cols :
       /\ Len(e.code[c]) <= nz /\ Len(e.code[c]) >= 1
       /\ \A k \in 1..Len(e.code[c]) : e.code[c][k][1] \in 0..(e.rows-1) /\ IsElem(R, e.code[c][k][2])
       /\ AllDistinct([k \in 1..Len(e.code[c]) |-> e.code[c][k][1]])
  \* (columns with a repeated row are shorter; they are the exception)
  /\ (e.rows >= 3 * nz /\ e.cols >= 80) => \E c \in 1..e.cols : Len(e.code[c]) = nz
  /\ e.cols * nz >= 25 * e.rows => UNION {{e.code[c][k][1] : k \in 1..Len(e.code[c])} : c \in 1..e.cols} = 0..(e.rows-1)
  /\ LET ent == Entries(e) vals == {e.code[p[1]][p[2]][2] : p \in ent} n == Cardinality(ent) IN
     IF Big(R) THEN Cardinality(vals) = n
     ELSE n >= 100 => IF NLess(R.m, NFromInt(n)) THEN NLeq(R.m, NFromInt(2 * Cardinality(vals))) ELSE 2 * Cardinality(vals) >= n
NoiseOK(R, T, i, e) ==
  /\ Len(e.idx) = T.noise[i] /\ AllDistinct(e.idx) /\ Len(e.y) = Len(e.idx)
  /\ \A k \in 1..Len(e.idx) : e.idx[k] \in 0..(e.cols-1)
  /\ IsVec(R, e.y) /\ (Big(R) => AllDistinct(e.y) /\ "0" \notin SetOf(e.y))
\* The sender's output is the encoded seed plus the noise.
LpnOK(R, e) ==
  LET at == TLCEval([k \in SetOf(e.idx) |-> CHOOSE i \in 1..Len(e.idx) : e.idx[i] = k]) IN
  /\ Len(e.ou) = e.cols
  /\ \A c \in 1..e.cols : e.ou[c] = RAdd(R, Column(R, e.su, e.code[c]), IF c - 1 \in DOMAIN at THEN e.y[at[c-1]] ELSE "0")
ExpansionOK(R, T, e) ==
  \E i \in LevelOfSeed(T, e.rows) :
    /\ e.cols <= T.out[i] /\ e.samecode
    /\ Len(e.su) = e.rows /\ Len(e.mu) = T.nb[i]
    /\ NoiseOK(R, T, i, e)
    /\ (IF e.full THEN CodeOK(R, T.nz, e) /\ LpnOK(R, e) ELSE e.most = T.nz)
\* What an expansion uses up.
Used(e) == e.su \o e.mu
=============================================================================
