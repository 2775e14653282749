------------------------------- MODULE VoleMC -------------------------------
(***************************************************************************)
(* A Vector-OLE generator pair over histories of calls: refused calls,       *)
(* precomputations and runs of any size, in either role assignment.          *)
(*                                                                          *)
(* Every correlated element has an identity <<expansion, position>> (the     *)
(* bootstrapped ones belong to expansion 0 of their precomputation); the      *)
(* sender and the receiver keep separate caches, seeds and masks and step     *)
(* through them separately, as the code does: elements are taken from the     *)
(* end of the cache, an expansion appends its output, then takes the next     *)
(* seed and mask from the end again.                                          *)
(*                                                                          *)
(* In simulation mode the histories are printed; the real code runs them.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Out, SeedSize, Masks,       \* per level: largest output, seed size, masks (buckets)
          Huge,                       \* a batch size beyond every level
          Batches, Sizes,             \* sizes tried
          MaxOps,                     \* length of a history
          Mixed,                      \* the roles may be exchanged
          Printing
\* Tables of the configurations.
OutA == <<6, 11, 17>>
SeedA == <<2, 3, 5>>
MasksA == <<1, 2, 2>>
Levels == Len(Out)
Reserve(i) == SeedSize[i] + Masks[i]
ASSUME \A i \in 1..Levels : Out[i] > Reserve(i)
ASSUME \A i \in 1..(Levels-1) : Reserve(i+1) <= Out[i]

VARIABLES hist,      \* operations so far, as text
          par,       \* batch and level per role assignment; 0 before the precomputation
          st,        \* per party side "s", "r" and assignment: cache, seed, mask
          count,     \* expansions and bootstraps so far, as used for identities
          delta,     \* per assignment: which delta (a number) is in use
          deltas,    \* number of deltas chosen so far
          out,       \* all elements delivered, with their delta
          burnt,     \* elements used as seed or mask in some expansion
          last       \* what the last operation did: for the invariants
vars == <<hist, par, st, count, delta, deltas, out, burnt, last>>
Assigns == IF Mixed THEN {0, 1} ELSE {0}
Sides == {"s", "r"}
Blank == [cache |-> <<>>, seed |-> <<>>, mask |-> <<>>]
Init == /\ hist = <<>> /\ count = 0 /\ deltas = 0 /\ out = {} /\ burnt = {}
        /\ par = [a \in Assigns |-> [batch |-> 0, level |-> 0]]
        /\ st = [a \in Assigns |-> [x \in Sides |-> Blank]]
        /\ delta = [a \in Assigns |-> 0]
        /\ last = [op |-> "none"]

\* One side's view of a sequence of steps.  A state of a side while it works:
\* cache, seed, mask, the number of the next expansion, and a log of expansions.
Take(s, n, field) ==      \* GetCached: the last n elements
  [s EXCEPT !.cache = SubSeq(@, 1, Len(@) - n), ![field] = SubSeq(s.cache, Len(s.cache) - n + 1, Len(s.cache))]
Ids(e, n) == [k \in 1..n |-> <<e, k>>]
Seeded(s, lvl) == Take(Take(s, SeedSize[lvl], "seed"), Masks[lvl], "mask")
\* An expansion at level lvl to n elements, keeping a seed for level next.
Expand(s, lvl, n, next) ==
  Seeded([s EXCEPT !.cache = @ \o Ids(s.e, n), !.e = @ + 1,
                   !.log = Append(@, [lvl |-> lvl, n |-> n, used |-> s.seed \o s.mask])], next)
RECURSIVE Climb(_, _, _)
\* The loop of the precomputation: raise the level until a batch fits.
Climb(s, lvl, batch) ==
  IF lvl = Levels \/ Out[lvl] >= batch + Reserve(lvl) THEN <<s, lvl>>
  ELSE Climb(Expand(s, lvl, Reserve(lvl + 1), lvl + 1), lvl + 1, batch)
Capped(batch) == IF batch > Out[Levels] THEN Out[Levels] ELSE batch
Bootstrap ==
  Seeded([cache |-> Ids(count, Reserve(1)), seed |-> <<>>, mask |-> <<>>, e |-> count + 1, log |-> <<>>, got |-> <<>>], 1)
Precomputed(batch) ==
  LET c == Climb(Bootstrap, 1, Capped(batch))
      b == IF Capped(batch) > Out[Levels] - Reserve(c[2]) THEN Out[Levels] - Reserve(c[2]) ELSE Capped(batch)
  IN [s |-> c[1], level |-> c[2], batch |-> b]
RECURSIVE Deliver(_, _, _, _)
\* The loop of a run that needs more than the cache: whole caches, then a tail.
Deliver(s, size, lvl, batch) ==
  LET miss == size - Len(s.got) IN
  IF miss = 0 THEN s
  ELSE IF Len(s.cache) <= miss
       THEN LET t == [s EXCEPT !.got = @ \o s.cache, !.cache = <<>>]
            IN IF Len(t.got) = size THEN t ELSE Deliver(Expand(t, lvl, batch + Reserve(lvl), lvl), size, lvl, batch)
       ELSE [s EXCEPT !.got = @ \o SubSeq(s.cache, Len(s.cache) - miss + 1, Len(s.cache)), !.cache = SubSeq(@, 1, Len(@) - miss)]
Served(s, size, lvl, batch) ==
  IF Len(s.cache) >= size
  THEN [s EXCEPT !.got = SubSeq(s.cache, Len(s.cache) - size + 1, Len(s.cache)), !.cache = SubSeq(@, 1, Len(@) - size)]
  ELSE Deliver(s, size, lvl, batch)
Keep(s) == [cache |-> s.cache, seed |-> s.seed, mask |-> s.mask]
Work(s) == [cache |-> s.cache, seed |-> s.seed, mask |-> s.mask, e |-> count, log |-> <<>>, got |-> <<>>]
UsedIn(log) == UNION {{log[k].used[j] : j \in 1..Len(log[k].used)} : k \in 1..Len(log)}
UsedSeq(log) == FoldLeft(LAMBDA acc, r : acc \o r.used, <<>>, log)
Text(t) == hist' = Append(hist, t)

Pre(a, batch, given) ==
  /\ Len(hist) < MaxOps
  /\ LET ps == Precomputed(batch) pr == Precomputed(batch) IN
     /\ par' = [par EXCEPT ![a] = [batch |-> ps.batch, level |-> ps.level]]
     /\ st' = [st EXCEPT ![a] = [s |-> Keep(ps.s), r |-> Keep(pr.s)]]
     /\ count' = ps.s.e
     /\ burnt' = burnt \cup UsedIn(ps.s.log)
     /\ last' = [op |-> "pre", a |-> a, ask |-> batch, level |-> <<ps.level, pr.level>>, batch |-> <<ps.batch, pr.batch>>,
                 log |-> <<ps.s.log, pr.s.log>>, got |-> <<<<>>, <<>>>>, d |-> deltas + 1]
  /\ deltas' = deltas + 1 /\ delta' = [delta EXCEPT ![a] = deltas + 1]
  /\ Text("P 0 " \o ToString(a) \o " " \o ToString(batch) \o (IF given THEN " 1" ELSE " 0"))
  /\ UNCHANGED out
Run(a, size) ==
  /\ Len(hist) < MaxOps
  /\ size > 0 \/ par[a].batch > 0
  /\ LET first == par[a].batch = 0
         ps == Precomputed(size) pr == Precomputed(size)
         lvl == IF first THEN ps.level ELSE par[a].level
         b == IF first THEN ps.batch ELSE par[a].batch
         s == Served(IF first THEN ps.s ELSE Work(st[a].s), size, lvl, b)
         r == Served(IF first THEN pr.s ELSE Work(st[a].r), size, lvl, b)
         d == IF first THEN deltas + 1 ELSE delta[a]
     IN /\ par' = [par EXCEPT ![a] = [batch |-> b, level |-> lvl]]
        /\ st' = [st EXCEPT ![a] = [s |-> Keep(s), r |-> Keep(r)]]
        /\ count' = s.e
        /\ burnt' = burnt \cup UsedIn(s.log)
        /\ out' = out \cup {s.got[k] : k \in 1..Len(s.got)}
        /\ delta' = [delta EXCEPT ![a] = d] /\ deltas' = IF first THEN deltas + 1 ELSE deltas
        /\ last' = [op |-> "run", a |-> a, ask |-> size, level |-> <<lvl, lvl>>, batch |-> <<b, b>>,
                    log |-> <<s.log, r.log>>, got |-> <<s.got, r.got>>, d |-> d]
  /\ Text("R 0 " \o ToString(a) \o " " \o ToString(size))
\* A precomputation that both parties refuse midway: before the bootstrapping, or
\* at some level of the climb.  What was expanded on the way is gone, and nothing is
\* precomputed afterwards.
RECURSIVE ClimbTo(_, _, _)
ClimbTo(s, lvl, to) == IF lvl = to THEN s ELSE ClimbTo(Expand(s, lvl, Reserve(lvl + 1), lvl + 1), lvl + 1, to)
PreFail(a, to) ==
  /\ ~Printing /\ Len(hist) < MaxOps
  /\ LET s == IF to = 0 THEN Work(st[a].s) ELSE ClimbTo(Bootstrap, 1, to) IN
     /\ st' = [st EXCEPT ![a] = [s |-> Keep(s), r |-> Keep(s)]]
     /\ count' = s.e /\ burnt' = burnt \cup UsedIn(s.log)
     /\ last' = [op |-> "fail", a |-> a, ask |-> 0, level |-> <<1, 1>>, batch |-> <<1, 1>>, log |-> <<s.log, s.log>>, got |-> <<<<>>, <<>>>>, d |-> 0]
  /\ par' = [par EXCEPT ![a] = [batch |-> 0, level |-> 0]]
  /\ delta' = [delta EXCEPT ![a] = 0]
  /\ Text("F 0 " \o ToString(a) \o " " \o ToString(to))
  /\ UNCHANGED <<out, deltas>>
\* A refused call changes nothing.
Refuse == /\ Len(hist) < MaxOps /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] # "B 0") /\ Text("B 0") /\ last' = [op |-> "none"]
          /\ UNCHANGED <<par, st, count, delta, deltas, out, burnt>>
\* Roles exchanged on one object: the code keeps one code matrix, batch and level per
\* object.  Only assignments of equal level may alternate (known finding V01-roles).
SameLevel == \A a, b \in Assigns : par[a].batch > 0 /\ par[b].batch > 0 => par[a].level = par[b].level

Next == /\ \/ \E a \in Assigns, b \in Batches \cup {Huge}, g \in BOOLEAN : Pre(a, b, g)
           \/ \E a \in Assigns, n \in Sizes : Run(a, n)
           \/ \E a \in Assigns, to \in 0..Levels : PreFail(a, to)
           \/ Refuse
        /\ Mixed => SameLevel'
Spec == Init /\ [][Next]_vars

Did == last.op # "none"
\* V01: the parties deliver the same elements, as many as asked, and remain in step.
InStep == Did => /\ last.got[1] = last.got[2] /\ (last.op = "run" => Len(last.got[1]) = last.ask)
                 /\ last.log[1] = last.log[2]
                 /\ \A a \in Assigns : st[a].s = st[a].r
\* V02
Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
NowUsed == UsedSeq(last.log[1]) \o last.got[1]
OnceOnly == Did => /\ Distinct(NowUsed)
                   /\ out \cap burnt = {}
\* (as an action property: what is used now was not used before)
NeverAgain == [][last'.op # "none" =>
                 LET now == UsedSeq(last'.log[1]) \o last'.got[1]
                 IN {now[i] : i \in 1..Len(now)} \cap (out \cup burnt) = {}]_vars
\* Stored elements are unused ones, each in one place.
StoredFresh == \A a \in Assigns :
  LET q == st[a].s.cache \o st[a].s.seed \o st[a].s.mask IN
  Distinct(q) /\ {q[i] : i \in 1..Len(q)} \cap (out \cup burnt) = {}
\* V03
Fits == Did => /\ \A k \in 1..Len(last.log[1]) :
                     LET e == last.log[1][k] IN e.n <= Out[e.lvl] /\ Len(e.used) = Reserve(e.lvl)
               /\ last.batch[1] + Reserve(last.level[1]) <= Out[last.level[1]]
               /\ last.batch[1] >= 1
               \* no higher level than needed
               /\ last.op = "pre" => \A i \in 1..(last.level[1]-1) : Out[i] - Reserve(i) < Capped(last.ask)
\* V04
DeltaStable == [][\A a \in Assigns : delta'[a] # delta[a] => (last'.op \in {"pre", "fail"} /\ last'.a = a) \/ delta[a] = 0]_vars
\* V05: nothing is delivered from, or expanded with, what a refused precomputation left.
AfterFail == [][last.op = "fail" /\ last'.op = "run" /\ last'.a = last.a =>
                \A i \in 1..Len(last'.got[1]) : last'.got[1][i][1] >= count]_vars
Line == FoldLeft(LAMBDA acc, x : acc \o " " \o x, "V " \o ToString(Len(hist) + 1) \o " N", hist)
PrintHistory == (Printing /\ Len(hist) = MaxOps) => PrintT("HISTORY " \o Line)
View == <<hist, par, st, count, delta, deltas, out, burnt, last>>
=============================================================================
