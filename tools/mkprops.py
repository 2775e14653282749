#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
D = "distributed_vector_ole/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [D + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": a, "where": D + b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("F01", "gf128 arithmetic is exactly the field GF(2)[x]/(x^128+x^7+x^2+x+1)",
  "For all gf128 values, addition and subtraction are bitwise exclusive or, and multiplication, inversion and division are those of the field GF(2)[x]/(x^128+x^7+x^2+x+1), whether the accelerated or the portable implementation was compiled. Every nonzero element times its inverse is one, and compound assignment (also when an operand aliases the target) gives the same result as the plain operator.",
  ["inputs", "configurations", "programs"], "all operand values, operator sequences and aliasings; both build flavours of the multiplication",
  "InverseTest and MultiplicationTest try a few constants in one build flavour; carries across the 64-bit halves, operand aliasing and the other flavour are never reached.",
  ["gf128.h", "gf128.cpp"], [("mul_gf128 / inverse", "gf128.cpp"), ("operators", "gf128.h")], ["gf128 operators"])
p("F02", "gf128 values survive every change of representation",
  "Converting a gf128 to and from a 128-bit integer, a polynomial representation, a serialized archive or a hash set never changes its value; equality, inequality and hashing agree with value equality. The identity, the zero and the generator it hands out are the ones of the field.",
  ["inputs", "programs"], "all values, all conversion round trips in any order",
  "The tests convert two or three constants; a lost or swapped half shows only on particular values.",
  ["gf128.h", "gf128.cpp"], [("conversions, serialize, AbslHashValue", "gf128.h")], ["gf128 conversions"])
p("S01", "Scalar encoding is exact for every type, modulus and thread",
  "For every supported scalar type, encoding to a 128-bit word and decoding gives the value back, decoding an arbitrary 128-bit word gives that word reduced into the type, and the k-th bit and the k-th power of two are those of the value. The size reported for a type is the least number of bytes holding every residue of the modulus installed in the calling thread, also after the modulus was changed or differs between threads.",
  ["inputs", "configurations", "histories", "schedules"], "all values and words, all moduli up to 128 bits (sizes beyond), every order of modulus changes, several threads with different moduli",
  "Tests use one or two moduli per type, fixed for the whole run, on one thread; the cached size per thread is never invalidated under test.",
  ["internal/scalar_helpers.h", "internal/ntl_helpers.h", "internal/ntl_helpers.cpp"],
  [("ToUint128 / FromUint128 / GetBit / SetBit / SizeOf", "internal/scalar_helpers.h"), ("thread-local cache of the modulus size", "internal/ntl_helpers.cpp")],
  ["ScalarHelper<T> functions"], [("cached modulus", "modulus the cached bit count belongs to", D + "internal/ntl_helpers.cpp")])
p("S02", "A type is declared safe for direct hashing only if the result is near uniform",
  "Whether b-bit hash values may be reduced into a scalar type is answered yes for a modulus exactly when b - log2(2^b mod modulus) exceeds the requested number of statistical security bits, and for word-sized types exactly when the hash is at least as wide as the type. The answer holds for moduli of every size up to 128 bits and every b from 1 to 128.",
  ["inputs", "configurations"], "all moduli (including powers of two, near powers of two and moduli wider than the hash), hash widths and security levels",
  "The repository checks the predicate for a handful of moduli at 128 bits; a wrong yes silently biases every protocol built on it and no output test notices.",
  ["internal/scalar_helpers.h", "scalar_vector_gilboa_product.h", "all_but_one_random_ot.h"],
  [("CanBeHashedInto", "internal/scalar_helpers.h")], ["ScalarHelper<T>::CanBeHashedInto"])
p("S03", "Randomizing fills every requested element with a fresh residue, and nothing else",
  "Randomizing a span of any scalar type writes every element of that span and no memory outside it, and every written value is a residue of the installed modulus. For word-sized types each element is drawn from the system's randomness with its full width; results of two calls are independent, and over prime moduli every residue can occur.",
  ["inputs", "configurations"], "all lengths including zero, all types and moduli, sub-spans of larger arrays",
  "Tests randomize short vectors and compare inequality; a short fill or a stuck byte is not noticed.",
  ["internal/scalar_helpers.h", "gf128.h"], [("Randomize", "internal/scalar_helpers.h")], ["ScalarHelper<T>::Randomize"])
p("R01", "The random generator is a deterministic AES counter stream of its seed",
  "Two generators given equal seeds produce the same sequence whatever their buffer sizes, that sequence is the AES-128 counter-mode keystream of the seed (key from its first, counter start from its second 16 bytes), and reseeding at any point restarts it from the beginning. Seeds shorter than 32 bytes are refused and leave an existing generator's stream unchanged.",
  ["inputs", "histories", "configurations"], "all seeds (counter carry into the high half included), buffer sizes (odd and tiny ones included), and interleavings of draws and reseeds",
  "The tests draw a few values with the default buffer; the refill boundary, odd buffers, a counter wrap and a reseed in the middle of a buffer are not reached. Two parties derive the same public code matrix only if this holds.",
  ["aes_uniform_bit_generator.h", "aes_uniform_bit_generator.cpp"], [("operator() refill", "aes_uniform_bit_generator.cpp"), ("seed", "aes_uniform_bit_generator.cpp")],
  ["AESUniformBitGenerator::operator()", "seed"], [("buffer position", "elements already handed out", D + "aes_uniform_bit_generator.h")])
p("R02", "The random generator never outruns its reseed limit",
  "Between two seedings a generator performs at most 2^48 block encryptions: once the limit is exceeded it signals an error instead of handing out more numbers, keeps doing so on every further draw, and works again after being reseeded.",
  ["histories", "configurations"], "any number of draws and any interleaving with reseeding; all buffer sizes",
  "2^49 draws cannot be executed by a test.",
  ["aes_uniform_bit_generator.h", "aes_uniform_bit_generator.cpp"], [("counter against the reseed interval", "aes_uniform_bit_generator.cpp")],
  ["AESUniformBitGenerator::operator()"], [("block counter", "encryptions since the last seeding", D + "aes_uniform_bit_generator.h")],
  "the limit is made overridable at compile time (DVO_VERIF_RESEED_INTERVAL)")
p("G01", "A seed tree is the keyed expansion of its root for every shape",
  "For every arity of at least two and every positive number of leaves, each node of a tree built from a seed and keys equals, for the i-th child, AES under the i-th key of the parent value exclusive-or the parent value; the root is the seed and the last level has exactly the requested number of leaves. Node access outside the tree's levels and level sizes is refused with INVALID_ARGUMENT.",
  ["inputs", "configurations"], "all arities, leaf counts (full, ragged and degenerate last levels), seeds and keys",
  "Tests build a few trees and check sizes and one or two values; ragged shapes at powers of the arity plus or minus one are where index arithmetic breaks.",
  ["ggm_tree.h", "ggm_tree.cpp"], [("ExpandSubtree", "ggm_tree.cpp"), ("AllocateLevels", "ggm_tree.cpp")], ["GGMTree::Create", "GetValueAtNode"])
p("G02", "A punctured tree has every leaf but one, for every position",
  "For every tree and every leaf position, the tree rebuilt from the keys and the per-level sibling sums without the entries on the path to that leaf has the same value in every node off the path. The values given for path entries have no influence on the result, and no node on the path gets its true value.",
  ["inputs", "configurations"], "all arities, leaf counts, missing positions, and arbitrary garbage in the ignored entries",
  "Tests puncture a few positions of small binary trees, with zeros in the ignored entries.",
  ["ggm_tree.cpp"], [("CreateFromSiblingWiseXOR", "ggm_tree.cpp")], ["GGMTree::CreateFromSiblingWiseXOR", "GetValueAtLeaf"])
p("G03", "Sibling sums are complete on every level",
  "For every tree, the per-level sums contain one vector per level below the root, of length equal to the arity, whose j-th entry is the exclusive or of exactly the nodes of that level that are a j-th child. Nodes of an incomplete last family are included.",
  ["inputs", "configurations"], "all arities, leaf counts and contents",
  "Tests look at one or two small full trees.",
  ["ggm_tree.h", "ggm_tree.cpp"], [("GetSiblingWiseXOR / XORBlocks", "ggm_tree.cpp")], ["GGMTree::GetSiblingWiseXOR"])
p("G04", "Malformed tree arguments are refused",
  "Building a tree with arity below two or a non-positive number of leaves, and rebuilding one with a missing position outside the leaves (negative included), a number of keys different from the arity, level sums of the wrong width, or a number of levels that does not fit the leaves, all return INVALID_ARGUMENT and never crash or read outside the given arrays.",
  ["inputs"], "all argument combinations around the valid region",
  "Tests try one bad value per argument; several documented preconditions have no test.",
  ["ggm_tree.cpp"], [("argument validation", "ggm_tree.cpp")], ["GGMTree::Create", "GGMTree::CreateFromSiblingWiseXOR"])
p("H01", "Hash functions are deterministic, in range, distinct and agree between hashers",
  "For every seed, element and number of buckets, hashing returns one bucket in range per hash function for every input in input order, depends only on seed, element value, function number and bucket count, and two hashers with the same seed agree whatever integer type the element is held in. Buckets are the documented keyed hash reduced modulo the number of buckets, so that different functions and different seeds give unrelated positions.",
  ["inputs", "configurations", "schedules"], "all seeds, elements up to 128 bits, bucket counts, numbers of functions and thread counts",
  "Tests sample one seed and check ranges; both parties' agreement on every element is what the batching protocols rest on.",
  ["cuckoo_hasher.h", "cuckoo_hasher.cpp"], [("Hash / HashToBucket / HashToUint128", "cuckoo_hasher.h")], ["CuckooHasher::Hash"])
p("H02", "Simple hashing places every input in each of its buckets, in order",
  "Simple hashing returns exactly the requested number of buckets, in which every input index occurs once per hash function mapping it there and nowhere else, and every bucket is in ascending order. The result is the same for every number of threads.",
  ["inputs", "configurations", "schedules"], "all input sizes (including zero and fewer inputs than threads), bucket counts, function counts, thread counts and schedules",
  "The tests check one size with the default number of threads; the merge of per-thread results depends on the schedule.",
  ["cuckoo_hasher.h"], [("HashSimple ordered merge", "cuckoo_hasher.h")], ["CuckooHasher::HashSimple"])
p("H03", "A successful cuckoo placement is a valid matching; failure is reported",
  "Whenever cuckoo hashing succeeds, every input index occupies exactly one bucket, that bucket is one of its hash positions (so the index is found in the same bucket by simple hashing with an equal seed), and all other buckets are marked empty. When an input cannot be placed within the try limit the result is an INTERNAL error and never a partial table, and more inputs than buckets, one hash function, or a non-positive bucket count give INVALID_ARGUMENT.",
  ["inputs", "histories"], "all seeds, input sets (eviction chains, repeated elements, full tables), bucket counts and function counts",
  "Tests check one random set for which insertion succeeds easily; long eviction chains and failures are data dependent.",
  ["cuckoo_hasher.h"], [("HashCuckoo eviction loop", "cuckoo_hasher.h")], ["CuckooHasher::HashCuckoo"],
  [("bucket table", "element held by each bucket", D + "cuckoo_hasher.h"), ("next hash function", "function under which a bucket's element was placed", D + "cuckoo_hasher.h")])
p("H04", "The recommended number of buckets is deterministic, sufficient and validated",
  "For two and three hash functions the recommended number of buckets depends only on the number of inputs and the security parameter, is positive, is at least the number of inputs, never shrinks when more statistical security is asked for, and meets the published failure-bound formula; cuckoo hashing distinct inputs of practical batch sizes into that many buckets succeeds. Zero inputs give one bucket, negative inputs INVALID_ARGUMENT, and other function counts UNIMPLEMENTED.",
  ["inputs", "configurations"], "all input counts, security levels and hash function counts",
  "Tests insert one size once; a recommendation that is too small fails only rarely, at other sizes, or for other security levels.",
  ["cuckoo_hasher.h", "cuckoo_hasher.cpp"], [("GetOptimalNumberOfBuckets", "cuckoo_hasher.cpp")], ["CuckooHasher::GetOptimalNumberOfBuckets"])
p("O01", "All-but-one OT: parties agree on all positions except the chosen one",
  "For every batch of output lengths and chosen indices, after both parties return success every output position of the receiver equals the sender's, except possibly the chosen one, and nothing is left unread on the channel. This holds for every supported scalar type, for empty outputs inside a batch, for either party as sender, and for every sequence of runs on one instance.",
  ["inputs", "histories", "configurations", "programs"], "all batch shapes, lengths (one, powers of two plus or minus one, ragged, zero), indices, types, roles, run sequences",
  "Tests run a few sizes for each type; batches mixing empty and non-empty outputs, index extremes and repeated runs on an instance are sampled at most once.",
  ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "internal/all_but_one_random_ot_internal.h"],
  [("SendTrees", "all_but_one_random_ot.h"), ("ReceiveTrees choice bits and offsets", "all_but_one_random_ot.cpp")], ["RunSender*/RunReceiver*", "channel"])
p("O02", "All-but-one OT reveals neither the chosen index nor the missing value",
  "Everything the sender receives is independent of the receiver's indices: two executions that differ only in the chosen indices show the sender identical messages and the OT functionality receives the index only as choice bits. From everything the receiver obtains (OT outputs, keys, messages) the missing value cannot be computed by tree expansion, and neither are values of other trees or runs.",
  ["inputs", "histories"], "all indices, batch shapes and pairs of executions",
  "A test of outputs passes when the index is sent in the clear or both OT messages are delivered.",
  ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp"], [("1-out-of-2 OT per level, complemented choice bits", "all_but_one_random_ot.cpp")], ["channel transcript", "OT functionality"])
p("O03", "Every all-but-one OT run uses fresh randomness and unbiased leaves only",
  "Seeds of different trees, and keys and seeds of different runs, are drawn freshly, so outputs of any two trees of at least 64-bit elements differ, in one batch and across runs. A run whose total number of leaves and modulus would exceed the instance's statistical error bound is refused by the sender with INVALID_ARGUMENT before anything is sent.",
  ["inputs", "histories", "configurations"], "all batch shapes, run sequences, moduli and security parameters",
  "Tests never compare two runs or two trees, nor moduli at the edge of the bound.",
  ["all_but_one_random_ot.h"], [("RAND_bytes per tree; CanBeHashedInto on total leaves", "all_but_one_random_ot.h")], ["RunSender*", "outputs"])
p("P01", "Single-point sharing: shares add up to the value at the index, zero elsewhere",
  "For every batch of value shares, indices and lengths, after success the sum of both parties' outputs is zero at every position except the chosen index of each non-empty output, where it is the sum of the two value shares. This holds for every supported type, role assignment and sequence of runs, whatever the output arrays contained before.",
  ["inputs", "histories", "configurations"], "all types, batch shapes with empty outputs, indices, share values, run sequences",
  "Tests use a few sizes and values; wrap-around in every type, empty slots in a batch and repeated runs are not enumerated.",
  ["spfss_known_index.h", "spfss_known_index.cpp"], [("leaf sums and correction word", "spfss_known_index.h")], ["RunValueProvider*/RunIndexProvider*"])
p("P02", "Single-point sharing reveals neither index nor value shares",
  "Everything the value provider receives is independent of the index provider's indices and value shares, and the single correction value it sends per output is masked by all leaves, including the one the index provider does not know. In two executions that differ only in the index, the value provider's inputs, messages and outputs are identical.",
  ["inputs", "histories"], "all indices, shares and pairs of executions",
  "Output tests cannot see what the messages reveal.",
  ["spfss_known_index.h"], [("masked sum", "spfss_known_index.h")], ["channel transcript", "outputs"])
p("M01", "Multi-point sharing: shares add up to x*y at the indices, zero elsewhere",
  "Given vectors with w = u*x + v on enough buckets, after success the sum of both outputs is x*y[i] at the i-th index and zero at all other positions, for every output size, set of distinct indices, values and type. This holds for every sequence of calls on one instance with changing output sizes and numbers of indices, with or without preparing buckets in advance, and independently of previous output contents.",
  ["inputs", "histories", "configurations"], "all sizes, index sets, values, types; all call sequences on one instance (bucket reuse and recomputation)",
  "Tests run one or two sizes per instance; the cached bucket table is wrong only for particular call sequences.",
  ["mpfss_known_indices.h", "mpfss_known_indices.cpp"], [("UpdateBuckets cache", "mpfss_known_indices.cpp"), ("bucket mapping", "mpfss_known_indices.h")],
  ["RunValueProviderVectorOLE / RunIndexProviderVectorOLE"], [("cached sizes", "sizes the bucket table was computed for", D + "mpfss_known_indices.h")])
p("M02", "Multi-point sharing refuses malformed arguments before sending anything",
  "Index vectors that are empty, longer than the output, of a length different from the values, or with a repeated entry or one outside 0 to size-1, and correlation vectors whose length is not the number of buckets, are refused with INVALID_ARGUMENT without sending or receiving a message or corrupting memory. After a refusal the instance gives correct results for valid arguments.",
  ["inputs", "histories"], "all argument combinations, at any point of a call sequence",
  "Tests try a few bad arguments on a fresh instance and never the boundary value or a negative index.",
  ["mpfss_known_indices.h"], [("argument validation", "mpfss_known_indices.h")], ["RunValueProviderVectorOLE / RunIndexProviderVectorOLE", "channel"])
p("M03", "Multi-point sharing reveals neither the indices nor the values",
  "The only vector the index provider sends has one entry per bucket, each equal to a value or zero plus its own one-time mask, and everything the value provider sees is the same in two executions whose indices and values differ while the masked vector is equal. Every bucket takes part in every run, whether or not an index fell into it.",
  ["inputs", "histories"], "all index sets, values and pairs of executions",
  "Output tests cannot see which buckets were touched or how entries were masked.",
  ["mpfss_known_indices.h"], [("permuted and padded y plus u; one point function per bucket", "mpfss_known_indices.h")], ["channel transcript", "OT functionality"])
p("B01", "Gilboa product: shares add up to x*y for every length, type and value",
  "After success of both parties the element-wise sum of the outputs is x*y for every scalar x, vector y of any length (zero and lengths not divisible by the packing factor included), supported type and modulus of at most 16 bytes, role assignment and sequence of runs on one instance. Wider moduli are refused with INVALID_ARGUMENT.",
  ["inputs", "histories", "configurations"], "all types, moduli, lengths, values and run sequences, in both OT flavours",
  "Tests use random short vectors with a few moduli, so maximal elements, residual packing slots and the switch between the OT flavours are not systematically reached.",
  ["scalar_vector_gilboa_product.h", "internal/gilboa_internal.h"], [("bit decomposition and packed OT messages", "scalar_vector_gilboa_product.h")], ["RunVectorProvider / RunValueProvider"])
p("B02", "Gilboa product masks every OT message and both sides use the same OT flavour",
  "Both parties choose the OT flavour from public sizes only and always the same one; the scalar's bits are used only as OT choices. In the non-correlated flavour every message pair is masked by freshly drawn uniform residues, so no mask repeats, and packing then unpacking a word returns the same elements for every type.",
  ["inputs", "histories", "configurations"], "all types, moduli around the bound of the flavour decision, lengths, values",
  "Output tests pass with a constant mask, and a disagreement on the flavour appears only for particular modulus, length and security.",
  ["scalar_vector_gilboa_product.h", "internal/gilboa_internal.h"], [("UseCorrelatedOT", "scalar_vector_gilboa_product.h"), ("RunOTSender1of2 masks; SpanToEMPBlock / EMPBlockToSpan", "internal/gilboa_internal.h")], ["OT functionality", "gilboa_internal packing"])
p("V01", "Vector-OLE: w = u*delta + v for every delivered element, in any call history",
  "For every sequence of precomputations and runs, with any batch sizes and requested sizes matched by both parties, each run delivers vectors of exactly the requested length with w = u*delta + v in every position. This includes sizes that are served from leftovers, span several expansions, exceed the batch size or the largest supported expansion, or are zero.",
  ["inputs", "histories", "configurations"], "all histories of precompute and run calls, sizes, batch sizes, types, roles",
  "Tests run one or two requests per instance with large fixed parameters; the cache arithmetic at exact boundaries depends on the whole history.",
  ["distributed_vector_ole.h", "distributed_vector_ole.cpp"], [("RunSender / RunReceiver cache loop", "distributed_vector_ole.h"), ("Expand*", "distributed_vector_ole.h")],
  ["RunSender / RunReceiver"], [("cached correlation", "elements produced but not delivered", D + "distributed_vector_ole.h"), ("seeds", "elements reserved for the next expansion", D + "distributed_vector_ole.h")])
p("V02", "Vector-OLE elements are used once: no output, seed or mask is ever repeated",
  "Over any history, the delivered elements never exceed what the performed expansions produced beyond their seeds, no delivered pair occurs twice, no delivered element is ever used again as a mask of a later expansion, and no two expansions use the same mask elements. After a new precomputation all material is fresh.",
  ["histories"], "all histories of precompute and run calls",
  "Reused correlations satisfy the equation the tests check, so nothing fails.",
  ["distributed_vector_ole.h"], [("GetSenderCached / GetReceiverCached remove what they return", "distributed_vector_ole.h")], ["RunSender outputs", "masked vectors on the channel"],
  [("cached correlation", "elements produced but not delivered", D + "distributed_vector_ole.h")])
p("V03", "Every expansion stays within the published LPN parameters",
  "Every expansion uses a public code matrix of seed size rows with ten random nonzeros sampled per column, noise in exactly the prescribed number of distinct positions, and an output no longer than the parameter set allows for that seed; the parameter set is the smallest one able to serve the batch. The shipped parameter table is consistent: each expansion step can produce the next step's seeds.",
  ["inputs", "histories", "configurations"], "all batch sizes and every step of every bootstrapping",
  "Outputs are correct with no noise at all or with an all-zero matrix; only security is lost.",
  ["distributed_vector_ole.h", "distributed_vector_ole.cpp"], [("PrecomputeCommon, ExpandSender", "distributed_vector_ole.h"), ("VOLEParameters", "distributed_vector_ole.cpp")], ["expansion parameters"],
  hook="the expansion reports the dimensions of its code matrix and its noise (DVO_VERIF)")
p("V04", "Delta is the receiver's, stable until the next receiver precomputation",
  "Every result of the receiver carries the delta given to its last precomputation, or the one drawn randomly by it (or by the first run) when none was given, unchanged for every later run. A new precomputation replaces it, and results delivered earlier stay valid under their own delta.",
  ["histories", "inputs"], "all histories of precompute and run calls with and without a given delta",
  "Tests check a single run per delta.",
  ["distributed_vector_ole.h"], [("receiver_cached_.delta carried through GetReceiverCached", "distributed_vector_ole.h")], ["RunReceiver"])
p("V05", "Vector-OLE errors leave the generator usable and nothing sent",
  "Batch sizes below one, negative sizes, absent channels and negative security parameters are refused with INVALID_ARGUMENT on the side called, without any message being exchanged. A later valid call sequence on the same instance behaves as if the refused calls had not been made. A precomputation that is refused on both sides in its course (modulus too long, too little security for the size) leaves nothing precomputed: the next run on the instance precomputes anew and is correct.",
  ["inputs", "histories"], "all invalid arguments at any point of a history",
  "Tests try invalid arguments once, on fresh instances, and never afterwards use the instance.",
  ["distributed_vector_ole.h"], [("argument validation", "distributed_vector_ole.h")], ["Create / Precompute* / Run*", "channel"])
p("X01", "Results do not depend on the number of threads",
  "For equal inputs and equal randomness, every operation with parallel sections gives the same values for every thread count, and modular types use the caller's modulus in all threads. Protocols run by parties with different thread counts give correct results.",
  ["schedules", "configurations", "inputs"], "all thread counts and loop schedules; modular types with non-default moduli",
  "Tests run with whatever thread count the machine has.",
  ["all_but_one_random_ot.h", "spfss_known_index.h", "mpfss_known_indices.h", "cuckoo_hasher.h", "distributed_vector_ole.h", "internal/ntl_helpers.h"],
  [("modulus context restored per thread; ordered merges", "spfss_known_index.h")], ["all protocol outputs"])
p("X02", "Parties stay in step: any agreed program of protocol runs completes",
  "Any sequence of instance creations and runs of the different protocols over one channel, in which both parties make matching calls, completes on both sides for either assignment of roles to parties: no party waits for data that was not flushed, none reads data meant for another operation, and the channel is empty afterwards. This holds for measured and unmeasured channels and for both orders of party identifiers.",
  ["programs", "histories", "schedules", "configurations"], "all matched call sequences over several instances sharing a channel, all role assignments, both channel kinds",
  "Tests use one protocol per channel with a fixed role assignment.",
  ["all_but_one_random_ot.h", "spfss_known_index.h", "mpfss_known_indices.cpp", "scalar_vector_gilboa_product.h", "distributed_vector_ole.h"],
  [("flush after send; lower identifier sends common seeds", "mpfss_known_indices.cpp")], ["channel", "all protocol calls"])
p("E01", "Invalid protocol arguments are refused locally and leave no trace",
  "Creating a protocol with no channel or a negative security parameter, and running all-but-one OT, single-point sharing or Gilboa products with indices out of range or vectors of mismatching lengths, returns INVALID_ARGUMENT on the calling side without exchanging a message and without touching outputs. The instance afterwards completes valid runs correctly.",
  ["inputs", "histories"], "all invalid arguments at any point of a sequence of runs",
  "Tests call each invalid variant once on a fresh instance.",
  ["all_but_one_random_ot.h", "spfss_known_index.h", "scalar_vector_gilboa_product.h", "mpfss_known_indices.cpp"], [("argument validation", "all_but_one_random_ot.h")], ["Create / Run*", "channel"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
