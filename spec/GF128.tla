------------------------------- MODULE GF128 --------------------------------
(***************************************************************************)
(* gf128 as a register machine: the state is a bank of field elements and   *)
(* every public operation is an instruction.  Step(regs, e) is the bank     *)
(* after instruction e; Observes(regs, e) says what a read-only instruction *)
(* must report.  Inverse is characterised, not computed: the unique y with  *)
(* x*y = 1, and 0 for x = 0.                                                *)
(***************************************************************************)
EXTENDS Ring, FiniteSets, TLC

\* x^(2^128 - 2) by square and multiply; the multiplicative inverse of x # 0.
GFInv(x) ==
  FoldLeft(LAMBDA acc, k : LET s == GFMul(acc, acc) IN IF k < 128 THEN GFMul(s, x) ELSE s,
           "1", [i \in 1..128 |-> i])
InverseOf(x, y) == IF x = "0" THEN y = "0" ELSE GFMul(x, y) = "1"

GFPow(x, n) ==  \* n a natural (hex)
  FoldLeft(LAMBDA acc, k : LET s == GFMul(acc, acc)
                           IN IF NBit(n, NBitLen(n) - k) = 1 THEN GFMul(s, x) ELSE s,
           "1", [i \in 1..NBitLen(n) |-> i])

TwoArg == {"add", "sub", "mul"}
\* Value of the destination register after an instruction.
Result(regs, e) ==
  LET x == regs[e.x]  y == regs[e.y]  d == regs[e.d] IN
  CASE e.op \in {"add", "sub"} -> NXor(x, y)
    [] e.op = "mul" -> GFMul(x, y)
    [] e.op \in {"addeq", "subeq"} -> NXor(d, y)
    [] e.op = "muleq" -> GFMul(d, y)
    [] e.op \in {"neg", "serial", "fromwords"} -> x
    [] e.op = "squared" -> GFMul(x, x)
    [] e.op \in {"square", "selfmul"} -> GFMul(d, d)
    [] e.op = "unit" -> IF x = "0" THEN "0" ELSE "1"
    [] e.op = "selfadd" -> "0"
    [] e.op = "fromlow" -> e.low
    [] e.op = "fromhl" -> NAdd(NShl(e.high, 64), e.low)
    [] e.op \in {"zero", "default"} -> "0"
    [] e.op = "one" -> "1"
    [] OTHER -> "?"

ReadOnly == {"cmp", "words", "hash", "print", "tou128"}
Observes(regs, e) ==
  LET x == regs[e.x]  y == regs[e.y] IN
  CASE e.op = "cmp" -> e.eq = (x = y) /\ e.ne = (x # y) /\ e.zero = (x = "0")
    [] e.op = "words" -> e.w = <<NLow(x, 64), NShr(x, 64)>>
    [] e.op = "hash" -> e.same /\ e.coll = 0
    [] e.op = "print" -> e.val = x /\ e.s = e.want
    [] e.op = "tou128" -> e.v = x
    [] OTHER -> FALSE

\* The instruction relation.
Instr(regs, e, regs2) ==
  \/ /\ e.op \in ReadOnly /\ Observes(regs, e) /\ regs2 = regs
  \/ /\ e.op = "inv" /\ InverseOf(regs[e.x], e.r) /\ IsElem(GF, e.r)
     /\ regs2 = [regs EXCEPT ![e.d] = e.r]
  \/ /\ e.op = "chain"     \* d := (x += y) * y, with x updated first
     /\ LET x1 == NXor(regs[e.x], regs[e.y])
            r1 == [regs EXCEPT ![e.x] = x1]
            \* if y is x itself, its new value is used
        IN regs2 = [r1 EXCEPT ![e.d] = GFMul(x1, r1[e.y])]
     /\ e.rx = regs2[e.x]
  \/ /\ e.op = "random"
     /\ \A i \in 1..Len(e.vs) : IsElem(GF, e.vs[i])
     /\ Cardinality({e.vs[i] : i \in 1..Len(e.vs)}) = Len(e.vs)
     /\ regs2 = [regs EXCEPT ![e.d] = e.r]
     \* eight draws together leave no byte of the word constant
     /\ \A b \in 0..15 : \E i, j \in 1..Len(e.vs) :
           NLow(NShr(e.vs[i], 8*b), 8) # NLow(NShr(e.vs[j], 8*b), 8)
  \/ /\ e.op \notin (ReadOnly \cup {"inv", "chain", "random"})
     /\ regs2 = [regs EXCEPT ![e.d] = Result(regs, e)]

GroupOrder == NSub(NPow2(128), "1")
OrderPrimes == {"3", "5", "11", "101", "281", "10001", "42f01", "663d81", "3d30f19cd101"}
IsGenerator(g) == \A q \in OrderPrimes : GFPow(g, NDiv(GroupOrder, q)) # "1"
=============================================================================
