------------------------------ MODULE T_GF128 -------------------------------
EXTENDS GF128, TraceBase
VARIABLE regs
Init == l = 1 /\ regs = [i \in 1..6 |-> "0"]
Load == IsEv("load") /\ Ev.r = Ev.v /\ regs' = [regs EXCEPT ![Ev.d] = Ev.v]
Op == /\ IsEv("op")
      /\ Instr(regs, Ev, regs')
      /\ (Ev.op \in ReadOnly \/ regs'[Ev.d] = Ev.r)
Gen == /\ IsEv("gen")
       /\ IsElem(GF, Ev.g) /\ IsGenerator(Ev.g)
       /\ Ev.deg = 128 /\ Ev.bits = 128 /\ Ev.mod = 135
       /\ UNCHANGED regs
Next == Load \/ Op \/ Gen
TypeOK == \A i \in 1..6 : IsElem(GF, regs[i])
=============================================================================
