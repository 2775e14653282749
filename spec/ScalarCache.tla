---------------------------- MODULE ScalarCache -----------------------------
(***************************************************************************)
(* Implementation-shaped model of the per-thread cache of the modulus size: *)
(* a query recomputes only when the installed modulus differs from the one  *)
(* the cache was filled for.  Refines: the answer is always the size of the *)
(* modulus installed in the asking thread.                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Moduli, None
VARIABLES mod, cmod, csize, answer
vars == <<mod, cmod, csize, answer>>
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Init == /\ mod = [t \in Threads |-> None] /\ cmod = [t \in Threads |-> None]
        /\ csize = [t \in Threads |-> None] /\ answer = <<None, None>>
Install(t, m) == mod' = [mod EXCEPT ![t] = m] /\ answer' = <<None, None>> /\ UNCHANGED <<cmod, csize>>
\* The saved context of one thread is restored in another.
Restore(t, s) == mod[s] # None /\ mod' = [mod EXCEPT ![t] = mod[s]] /\ answer' = <<None, None>> /\ UNCHANGED <<cmod, csize>>
Query(t) == /\ mod[t] # None
            /\ IF csize[t] = None \/ cmod[t] # mod[t]
               THEN cmod' = [cmod EXCEPT ![t] = mod[t]] /\ csize' = [csize EXCEPT ![t] = Bits(mod[t] - 1)]
               ELSE UNCHANGED <<cmod, csize>>
            /\ answer' = <<t, csize'[t]>>
            /\ UNCHANGED mod
Next == \E t \in Threads : Query(t) \/ (\E m \in Moduli : Install(t, m)) \/ (\E s \in Threads : Restore(t, s))
Spec == Init /\ [][Next]_vars
Right == answer[1] # None => answer[2] = Bits(mod[answer[1]] - 1)
=============================================================================
