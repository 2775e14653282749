------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications: the recorded execution, the      *)
(* position in it, and acceptance ("every line was explained").              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEv(name) == /\ l <= Len(Trace)
              /\ Trace[l].ev = name
              /\ l' = l + 1
\* A state predicate as one conjunct (TLC would branch on its disjunctions).
Holds(p) == p = TRUE
\* The same for what only one property is about (the check says which one it is).
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""
For(id, p) == (Prop # id \/ p) = TRUE
ForAny(ids, p) == (Prop \notin ids \/ p) = TRUE
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
