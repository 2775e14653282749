------------------------------ MODULE T_Cuckoo ------------------------------
EXTENDS Buckets, Cuckoo, TraceBase
Init == l = 1
Check(name, id, ok) == IsEv(name) /\ For(id, ok)
\* (X01: with any number of threads)
CheckX(name, id, ok) == IsEv(name) /\ ForAny({id, "X01"}, ok)
CreateOK == Ev.code = (IF Ev.k > 0 THEN "OK" ELSE "INVALID_ARGUMENT")
Pos == TLCEval([i \in 1..Len(Ev.in) |-> Positions(Ev.seed, Ev.in[i], Ev.k, Ev.m)])
\* (bucket numbers may be beyond 2^31)
HashOK == IF Ev.mpos THEN /\ Ev.code = "OK" /\ Len(Ev.r) = Len(Ev.in)
                          /\ \A i \in 1..Len(Ev.in) : Ev.r[i].p = HexPositions(Ev.seed, Ev.in[i], Ev.k, Ev.m)
          ELSE Ev.code = "INVALID_ARGUMENT"

N == Len(Ev.in)
Refused(bad) == /\ Ev.code \in {"OK", "INVALID_ARGUMENT", "INTERNAL"}
                /\ IF bad THEN Ev.code = "INVALID_ARGUMENT"
                   ELSE IF TooSmallEdge(Ev.sec4, N, Ev.k, Ev.m) THEN TRUE
                   ELSE (Ev.code = "INVALID_ARGUMENT") = TooSmall(Ev.sec4, N, Ev.k, Ev.m)
SimpleOK ==
  /\ Refused(~ Ev.mpos) /\ Ev.code # "INTERNAL"
  /\ Ev.code = "OK" => Ev.r = SimpleTable(Pos, NToInt(Ev.m))
CuckooOK ==
  /\ Refused(~ Ev.mpos \/ Ev.k = 1 \/ NLess(Ev.m, NFromInt(N)))
  /\ Ev.code = "OK" => LET p == Pos IN TableOK(Ev.r, p, NToInt(Ev.m)) /\ ~ Hopeless(p)

BucketsOK ==
  IF "stable" \in DOMAIN Ev /\ ~ Ev.stable THEN FALSE
  ELSE IF Ev.neg THEN Ev.code = "INVALID_ARGUMENT"
  ELSE IF Ev.n = "0" THEN Ev.code = "OK" /\ Ev.r = "1"
  ELSE IF Ev.k \notin {2, 3} THEN Ev.code = "UNIMPLEMENTED"
  ELSE /\ Ev.code = "OK" /\ Ev.r = Ev.again /\ Ev.r # "negative" /\ NLeq(Ev.n, Ev.r) /\ NLeq(Ev.r, Ev.more)
       /\ RecommendedOK(Ev.k, Ev.n, Ev.sec4, Ev.r)
SucceedOK == Ev.failures = 0 /\ Ev.short = 0
Next == \/ Check("create", "H03", CreateOK) \/ CheckX("hash", "H01", HashOK) \/ CheckX("simple", "H02", SimpleOK)
        \/ CheckX("cuckoo", "H03", CuckooOK) \/ Check("buckets", "H04", BucketsOK) \/ Check("succeed", "H04", SucceedOK)
=============================================================================
