------------------------------ MODULE AesGenMC ------------------------------
(***************************************************************************)
(* Implementation-shaped model of the generator: a buffer refilled as a     *)
(* whole, a position in it, a running nonce, and a count of blocks since    *)
(* seeding that is checked before a refill.  Values are modelled by their   *)
(* index in the keystream (nonce counter minus its start).                  *)
(* Refinement: the values handed out after a seeding are 0, 1, 2, ... ; at  *)
(* most 2*Limit of them; a refusal lasts until the next seeding; a refusal  *)
(* happens only when one more refill would exceed the limit.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxBuf, Limit, MaxSeeds
VARIABLES bufsize, buffer, used, ctr, nonce, emitted, last, dead, seeds
vars == <<bufsize, buffer, used, ctr, nonce, emitted, last, dead, seeds>>
Even(b) == b + (b % 2)
Req == 0..MaxBuf
Init == /\ \E b \in Req : bufsize = Even(IF b < 2 THEN 2 ELSE b)
        /\ buffer = [i \in 1..bufsize |-> 0-1] /\ used = bufsize /\ ctr = 0 /\ nonce = 0
        /\ emitted = 0 /\ last = 0-1 /\ dead = FALSE /\ seeds = 1
Seed == /\ seeds < MaxSeeds /\ seeds' = seeds + 1
        /\ used' = bufsize /\ ctr' = 0 /\ nonce' = 0 /\ emitted' = 0 /\ last' = 0-1 /\ dead' = FALSE
        /\ UNCHANGED <<bufsize, buffer>>
FromBuffer == /\ used < bufsize
              /\ last' = buffer[used + 1] /\ used' = used + 1 /\ emitted' = emitted + 1
              /\ UNCHANGED <<bufsize, buffer, ctr, nonce, dead, seeds>>
nblk == bufsize \div 2
Refill == /\ used >= bufsize /\ ctr + nblk <= Limit
          /\ buffer' = [i \in 1..bufsize |-> 2 * nonce + i - 1]
          /\ nonce' = nonce + nblk /\ ctr' = ctr + nblk
          /\ last' = buffer'[1] /\ used' = 1 /\ emitted' = emitted + 1
          /\ UNCHANGED <<bufsize, dead, seeds>>
Throw == /\ used >= bufsize /\ ctr + nblk > Limit
         /\ dead' = TRUE
         /\ UNCHANGED <<bufsize, buffer, used, ctr, nonce, emitted, last, seeds>>
Next == Seed \/ FromBuffer \/ Refill \/ Throw
Spec == Init /\ [][Next]_vars
InOrder == emitted > 0 => last = emitted - 1
Bounded == emitted <= 2 * Limit
NotEarly == dead => (emitted + 1) \div 2 + nblk > Limit
Sticky == [][dead /\ seeds' = seeds => emitted' = emitted]_vars
=============================================================================
