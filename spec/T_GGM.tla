------------------------------- MODULE T_GGM --------------------------------
EXTENDS GGM, TraceBase
VARIABLES tree, keysSeen
vars == <<tree, keysSeen>>
Init == l = 1 /\ tree = [a |-> 0] /\ keysSeen = {}
Quiet == UNCHANGED vars
\* A tree was built from a seed.
BuiltOK == /\ Ev.code = "OK" /\ Ev.arity = Ev.a /\ Ev.leaves = Ev.n /\ Ev.L = Len(Ev.levels)
           /\ Ev.gkeys = Ev.keys
           /\ TreeOK(Ev.levels, Ev.a, Ev.n, Ev.seed, Ev.keys)
SumsOK == Ev.sums = SiblingSums(Ev.levels, Ev.a)
Built == /\ IsEv("tree") /\ Holds(Ev.code = "OK") /\ For("G01", BuiltOK) /\ For("G03", SumsOK)
         /\ tree' = [a |-> Ev.a, n |-> Ev.n, levels |-> Ev.levels] /\ UNCHANGED keysSeen
\* One of its nodes was asked for.
Inside == /\ Ev.i >= 0 /\ Ev.i < Len(tree.levels)
          /\ LET z == Len(tree.levels[Ev.i + 1]) IN Ev.k >= 0 /\ Ev.k < z
GetOK == IF Inside THEN Ev.code = "OK" /\ Ev.v = tree.levels[Ev.i + 1][Ev.k + 1]
         ELSE Ev.code = "INVALID_ARGUMENT"
Get == IsEv("get") /\ ForAny({"G01", "G04"}, GetOK) /\ Quiet
\* It was rebuilt without leaf m, twice, with different values on the path.
PunctOK == /\ Ev.code = <<"OK", "OK">> /\ Ev.meta
           /\ PuncturedOK(tree.levels, Ev.a, tree.a, Ev.m) /\ PuncturedOK(tree.levels, Ev.b, tree.a, Ev.m)
           /\ Ev.a = Ev.b
Punct == IsEv("punct") /\ For("G02", PunctOK) /\ Quiet
\* A tree too large to be written down: its sizes and some of its nodes.
BigOK == /\ Ev.code = "OK" /\ Ev.arity = Ev.a /\ Ev.leaves = Ev.n /\ Ev.root = Ev.seed
         /\ LevelsOK(Ev.a, Ev.n, Len(Ev.sizes)) /\ Ev.sizes = Sizes(Ev.a, Ev.n, Len(Ev.sizes))
         /\ \A x \in Range(Ev.nodes) : x.v = Expand(x.p, Ev.keys[x.c])
Big == /\ IsEv("big") /\ Holds(Ev.code = "OK") /\ For("G01", BigOK) /\ For("G03", Ev.sums = Ev.xors) /\ Quiet
BigPunct == IsEv("bigpunct") /\ For("G02", Ev.code = "OK" /\ Ev.off = 0 /\ Ev.on = 0) /\ Quiet
\* A tree with keys of its own choice.
KeySet == {Ev.keys[i] : i \in 1..Len(Ev.keys)}
FreshOK == /\ Ev.code = "OK" /\ Len(Ev.keys) = Ev.a
           /\ \A i \in 1..Ev.a : \A j \in 1..(i-1) : Ev.keys[i] # Ev.keys[j]
           /\ KeySet \cap keysSeen = {}
           /\ TreeOK(Ev.levels, Ev.a, Ev.n, Ev.seed, Ev.keys)
Fresh == IsEv("fresh") /\ For("G01", FreshOK) /\ keysSeen' = keysSeen \cup KeySet /\ UNCHANGED tree
\* Malformed arguments.
BadOK == Ev.code = (IF Ev.valid THEN "OK" ELSE "INVALID_ARGUMENT")
\* An unneeded extra level may be accepted or not (see LevelsOK).
Bad == IsEv("bad") /\ For("G04", BadOK) /\ Quiet
Next == Big \/ BigPunct \/ Built \/ Get \/ Punct \/ Fresh \/ Bad
=============================================================================
