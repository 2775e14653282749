------------------------------ MODULE Channel -------------------------------
(***************************************************************************)
(* Two parties running an agreed program of protocol operations over one    *)
(* channel.  Every party performs, per operation, a list of steps: put a    *)
(* message in its outbox, flush the outbox, or wait for a message.  Object  *)
(* messages use stream 0; the OT layer of an instance uses stream 0 too if  *)
(* the channel is measured, else a stream of its own.                       *)
(*                                                                         *)
(* The model explores every program up to MaxOps operations and every       *)
(* interleaving; in simulation mode it also prints the programs, which are  *)
(* then run, freely interleaved, by the real code (check X02).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MaxOps, MaxInst, Kinds, Printing
Parties == {0, 1}
VARIABLES measured,      \* the channel counts bytes (everything on stream 0)
          prog,          \* operations <<"N", kind>> or <<"R", instance, provider>>
          phase,         \* build | run
          kinds,         \* kinds of the instances of prog
          pc, step,      \* per party: operation, step within it
          outb, inb      \* per party and stream: sequences of messages
vars == <<measured, prog, phase, kinds, pc, step, outb, inb>>
Streams == 0..MaxInst
StreamOf(inst) == IF measured THEN 0 ELSE inst
S(stream, what) == <<"send", stream, what>>
F(stream) == <<"flush", stream, "">>
R(stream, what) == <<"recv", stream, what>>

Sync == <<S(0, "sync"), F(0), R(0, "sync")>>
\* Party 0 has the lower identifier.
Seed(p) == IF p = 0 THEN <<S(0, "seed"), F(0)>> ELSE <<R(0, "seed")>>
Create(p, kind) ==
  CASE kind \in {"rot", "spfss", "gilboa"} -> Sync
    [] kind = "mpfss" -> Sync \o Sync \o Seed(p)
    [] kind = "vole" -> Sync \o Sync \o Sync \o Seed(p)
OtSend(s) == <<R(s, "request"), S(s, "answer")>>
OtRecv(s) == <<S(s, "request"), F(s), R(s, "answer")>>
Rot(role, s) == IF role = "provider" THEN OtSend(s) \o <<S(s, "keys"), F(s)>>
                ELSE OtRecv(s) \o <<R(s, "keys")>>
Spfss(role, s) == Rot(role, s) \o (IF role = "provider" THEN <<S(0, "sums"), F(0)>> ELSE <<R(0, "sums")>>)
Mpfss(role, s) == (IF role = "provider" THEN <<R(0, "masked")>> ELSE <<S(0, "masked"), F(0)>>) \o Spfss(role, s)
Gilboa(role, s) == IF role = "provider" THEN OtRecv(s) \o <<F(s)>> ELSE OtSend(s) \o <<F(s)>>
\* Vector-OLE: bootstrap (the receiver is the scalar's owner), code matrix, expansion.
Vole(p, role, s) ==
  Gilboa(role, s) \o (IF role = "provider" THEN <<R(0, "w")>> ELSE <<S(0, "w"), F(0)>>)
    \o Seed(p) \o Mpfss(role, s)
Steps(p, op) ==
  IF op[1] = "N" THEN Create(p, op[2])
  ELSE LET k == kinds[op[2]] s == StreamOf(op[2]) role == IF op[3] = p THEN "provider" ELSE "other"
       IN CASE k = "rot" -> Rot(role, s) [] k = "spfss" -> Spfss(role, s) [] k = "mpfss" -> Mpfss(role, s)
            [] k = "gilboa" -> Gilboa(role, s) [] k = "vole" -> Vole(p, role, s)

Empty == [p \in Parties |-> [s \in Streams |-> <<>>]]
Init == /\ measured \in BOOLEAN /\ prog = <<>> /\ phase = "build" /\ kinds = <<>>
        /\ pc = [p \in Parties |-> 1] /\ step = [p \in Parties |-> 1] /\ outb = Empty /\ inb = Empty
AddNew == /\ phase = "build" /\ Len(prog) < MaxOps /\ Len(kinds) < MaxInst
          /\ \E k \in Kinds : prog' = Append(prog, <<"N", k>>) /\ kinds' = Append(kinds, k)
          /\ UNCHANGED <<measured, phase, pc, step, outb, inb>>
AddRun == /\ phase = "build" /\ Len(prog) < MaxOps /\ kinds # <<>>
          /\ \E i \in 1..Len(kinds), r \in Parties : prog' = Append(prog, <<"R", i, r>>)
          /\ UNCHANGED <<measured, phase, kinds, pc, step, outb, inb>>
Start == /\ phase = "build" /\ Len(prog) = MaxOps /\ phase' = "run"
         /\ UNCHANGED <<measured, prog, kinds, pc, step, outb, inb>>
Running(p) == phase = "run" /\ pc[p] <= Len(prog)
Todo(p) == Steps(p, prog[pc[p]])[step[p]]
Advance(p) == IF step[p] = Len(Steps(p, prog[pc[p]]))
              THEN pc' = [pc EXCEPT ![p] = @ + 1] /\ step' = [step EXCEPT ![p] = 1]
              ELSE step' = [step EXCEPT ![p] = @ + 1] /\ UNCHANGED pc
Send(p) == /\ Running(p) /\ Todo(p)[1] = "send"
           /\ outb' = [outb EXCEPT ![p][Todo(p)[2]] = Append(@, <<pc[p], Todo(p)[3]>>)]
           /\ Advance(p) /\ UNCHANGED <<measured, prog, phase, kinds, inb>>
Flush(p) == /\ Running(p) /\ Todo(p)[1] = "flush"
            /\ inb' = [inb EXCEPT ![1-p][Todo(p)[2]] = @ \o outb[p][Todo(p)[2]]]
            /\ outb' = [outb EXCEPT ![p][Todo(p)[2]] = <<>>]
            /\ Advance(p) /\ UNCHANGED <<measured, prog, phase, kinds>>
Recv(p) == /\ Running(p) /\ Todo(p)[1] = "recv" /\ inb[p][Todo(p)[2]] # <<>>
           /\ inb' = [inb EXCEPT ![p][Todo(p)[2]] = Tail(@)]
           /\ Advance(p) /\ UNCHANGED <<measured, prog, phase, kinds, outb>>
Next == AddNew \/ AddRun \/ Start \/ \E p \in Parties : Send(p) \/ Flush(p) \/ Recv(p)
Spec == Init /\ [][Next]_vars

\* A party that reads gets the message of the same operation it is waiting for.
InStep == \A p \in Parties :
  Running(p) /\ Todo(p)[1] = "recv" /\ inb[p][Todo(p)[2]] # <<>> => Head(inb[p][Todo(p)[2]]) = <<pc[p], Todo(p)[3]>>
Finished == phase = "run" /\ \A p \in Parties : pc[p] > Len(prog)
NoDeadlock == phase = "run" /\ ~ Finished =>
  \E p \in Parties : Running(p) /\ (Todo(p)[1] # "recv" \/ inb[p][Todo(p)[2]] # <<>>)
ChannelEmpty == Finished => outb = Empty /\ inb = Empty

\* Program text for the harness.
OpText(op) == IF op[1] = "N" THEN " N " \o op[2] ELSE " R " \o ToString(op[2] - 1) \o " " \o ToString(op[3])
Text == FoldLeft(LAMBDA acc, op : acc \o OpText(op), "P " \o (IF measured THEN "1 " ELSE "0 ") \o ToString(Len(prog)), prog)
PrintProgram == (Printing /\ Finished) => PrintT("PROGRAM " \o Text)
=============================================================================
