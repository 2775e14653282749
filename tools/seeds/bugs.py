BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H = '#include "demo.h"\n'
NTL = H + '#include "NTL/ZZ_p.h"\n#include "NTL/lzz_p.h"\n'

bug("F01-portable-carry", "F01", [("gf128.cpp",
"""        shifted[1] = (shifted[1] << 1) | (shifted[0] >> 63);
        shifted[0] = shifted[0] << 1;
""",
"""        shifted[0] = shifted[0] << 1;
        shifted[1] = (shifted[1] << 1) | (shifted[0] >> 63);
""")],
"The portable build of gf128.cpp (without USE_ASM) and an operand of which bits 62 and 63 differ when shifted.",
"Products of the portable multiplication lose or invent the carry between the two words.",
H + """// PORTABLE
#include "distributed_vector_ole/gf128.h"
using namespace distributed_vector_ole;
int main() {
  gf128 x(absl::uint128(1) << 60), y(16);
  CHECK(x * y == gf128(absl::uint128(1) << 64));
  gf128 a(0x0123456789abcdefull, 0xfedcba9876543210ull), b(0xdeadbeefcafef00dull, 0x1122334455667788ull);
  CHECK(a * b == b * a);
  CHECK((a * a.inverse()) == gf128(1));
}
""")

bug("S01-stale-bits", "S01", [("internal/ntl_helpers.cpp",
"  if (!cached_num_bits || !cached_modulus || T::modulus() != *cached_modulus) {",
"  if (!cached_num_bits || !cached_modulus || T::modulus() > *cached_modulus) {")],
"One thread that uses a large ZZ_p modulus and afterwards a smaller one.",
"The cached number of bits of the modulus is only refreshed when the modulus grows, so element sizes are wrong afterwards.",
NTL + """
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  NTL::ZZ_p::init(NTL::conv<NTL::ZZ>("340282366920938463463374607431768211297"));
  CHECK(ScalarHelper<NTL::ZZ_p>::SizeOf() == 16);
  NTL::ZZ_p::init(NTL::conv<NTL::ZZ>(65537));
  CHECK(ScalarHelper<NTL::ZZ_p>::SizeOf() == 3 || ScalarHelper<NTL::ZZ_p>::SizeOf() == 2);
  NTL::ZZ_p::init(NTL::conv<NTL::ZZ>(251));
  CHECK(ScalarHelper<NTL::ZZ_p>::SizeOf() == 1);
}
""")

bug("S02-fixed-hash-bits", "S02", [("internal/scalar_helpers.h",
"""    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
    return hash_bits - std::log2(double(rem)) > statistical_security;
  }
  static void Randomize(absl::Span<NTL::zz_p> output) {""",
"""    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
    return std::max(hash_bits, 64) - std::log2(double(rem)) >
           statistical_security;
  }
  static void Randomize(absl::Span<NTL::zz_p> output) {""")],
"A zz_p modulus and hashes of fewer than 64 bits (packed OT messages).",
"Moduli are declared safe for direct hashing of short hashes although the reduction is visibly biased.",
NTL + """
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  NTL::zz_p::init(2147483629);  // just below 2^31
  // 32-bit hashes: the first 38 residues are hit three times, others twice.
  CHECK(!ScalarHelper<NTL::zz_p>::CanBeHashedInto(40, 32));
  NTL::zz_p::init(1099511627689);
  CHECK(!ScalarHelper<NTL::zz_p>::CanBeHashedInto(40, 48));
}
""")

bug("S03-recycled-chunk", "S03", [("internal/scalar_helpers.h",
"""    NTL::Vec<NTL::ZZ_p> ntl_vec = NTL::random_vec_ZZ_p(output.size());
    for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
      output[i] = std::move(ntl_vec[i]);
    }""",
"""    const int64_t kChunkSize = 1 << 12;  // Bounds the size of the temporary.
    NTL::Vec<NTL::ZZ_p> ntl_vec = NTL::random_vec_ZZ_p(
        std::min(kChunkSize, static_cast<int64_t>(output.size())));
    for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
      output[i] = ntl_vec[i % kChunkSize];
    }""")],
"Randomizing more than 4096 ZZ_p elements in one call.",
"Every 4096th element repeats: the temporary is never refilled.",
NTL + """
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  NTL::ZZ_p::init(NTL::conv<NTL::ZZ>("340282366920938463463374607431768211297"));
  std::vector<NTL::ZZ_p> v(10000);
  ScalarHelper<NTL::ZZ_p>::Randomize(absl::MakeSpan(v));
  std::set<std::string> seen;
  for (auto& x : v) { std::stringstream s; s << x; seen.insert(s.str()); }
  CHECK(seen.size() == v.size());
}
""")

bug("R01-nonce-carry", "R01", [("aes_uniform_bit_generator.cpp",
"""      nonces[i] = nonce_;
      nonce_++;
    }""",
"""      nonces[i] = absl::MakeUint128(absl::Uint128High64(nonce_),
                                    absl::Uint128Low64(nonce_) + i);
    }
    nonce_ += num_blocks;""")],
"A seed whose nonce has a low word close to 2^64, so that the counter carries within a buffer.",
"The carry into the high word is lost, and outputs differ from the counter stream and depend on the buffer size.",
H + """
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
using namespace distributed_vector_ole;
int main() {
  std::vector<uint8_t> seed(32, 0xff);
  seed[16] = 0xfa; seed[31] = 0; seed[30] = 0; seed[29] = 0; seed[28] = 0;
  auto a = AESUniformBitGenerator::Create(seed, 2), b = AESUniformBitGenerator::Create(seed, 64);
  auto ga = a.ValueOrDie(), gb = b.ValueOrDie();
  for (int i = 0; i < 64; i++) CHECK(ga() == gb());
}
""")

bug("R01-stale-after-reseed", "R01", [("aes_uniform_bit_generator.cpp",
"  elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.\n", "")],
"A generator that is reseeded while its buffer still holds unused numbers.",
"After seed() the generator continues with numbers of the old seed.",
H + """
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
using namespace distributed_vector_ole;
int main() {
  std::vector<uint8_t> s1(32, 1), s2(32, 2);
  auto a = AESUniformBitGenerator::Create(s1, 16), b = AESUniformBitGenerator::Create(s2, 16);
  auto ga = a.ValueOrDie(), gb = b.ValueOrDie();
  ga(); ga(); ga();
  CHECK(ga.seed(s2).ok());
  for (int i = 0; i < 50; i++) CHECK(ga() == gb());
}
""")

bug("R02-count-refills", "R02", [("aes_uniform_bit_generator.cpp",
"    counter_ += num_blocks;", "    counter_++;")],
"Running a generator beyond its reseed interval (with the interval scaled down).",
"The generator counts refills instead of AES calls and runs past the interval by the buffer size.",
"// FLAGS: -DDVO_VERIF -DDVO_VERIF_RESEED_INTERVAL=64\n" + H + """
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
using namespace distributed_vector_ole;
int main() {
  auto a = AESUniformBitGenerator::Create(std::vector<uint8_t>(32, 1), 16);
  auto g = a.ValueOrDie();
  int n = 0;
  try { for (; n < 1000; n++) g(); } catch (std::exception&) {}
  CHECK(n == 128);
}
""")

bug("G02-last-family", "G02", [("ggm_tree.cpp",
"""    int num_siblings = std::min(static_cast<int64_t>(arity),
                                tree->level_size(level_index) - node_base);""",
"""    int64_t level_size = tree->level_size(level_index);
    int num_siblings = node_base + arity < level_size
                           ? arity
                           : static_cast<int>(level_size % arity);""")],
"A missing leaf whose ancestors include the last family of a level, with that family complete.",
"The siblings of the last, complete family are not reconstructed.",
H + """
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  for (int arity = 2; arity < 5; arity++)
    for (int n = 2; n < 40; n++)
      for (int m = 0; m < n; m++) {
        std::vector<GGMTree::Block> keys;
        for (int i = 0; i < arity; i++) keys.push_back(100 + i);
        auto a = GGMTree::Create(n, 42, keys);
        auto t = std::move(a.ValueOrDie());
        auto b = GGMTree::CreateFromSiblingWiseXOR(arity, n, m, t->GetSiblingWiseXOR(), keys);
        CHECK(b.ok());
        auto u = std::move(b.ValueOrDie());
        for (int i = 0; i < n; i++)
          if (i != m) CHECK(t->GetValueAtLeaf(i).ValueOrDie() == u->GetValueAtLeaf(i).ValueOrDie());
      }
}
""")

bug("G03-partial-batch", "G03", [("ggm_tree.cpp",
"  int64_t num_batches = (in.size() + batch_size - 1) / batch_size;",
"  int64_t num_batches = std::max<int64_t>(1, in.size() / batch_size);")],
"A level of a tree whose size is not a multiple of the arity.",
"The nodes of the incomplete last family are left out of the sibling-wise sums.",
H + """
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  std::vector<GGMTree::Block> keys = {7, 8, 9};
  for (int n = 2; n < 60; n++) {
    auto a = GGMTree::Create(n, 42, keys);
    auto t = std::move(a.ValueOrDie());
    auto x = t->GetSiblingWiseXOR();
    for (int l = 1; l < t->num_levels(); l++)
      for (int s = 0; s < 3; s++) {
        GGMTree::Block sum = 0;
        for (int64_t i = s; i < t->level_size(l); i += 3) sum ^= t->GetValueAtNode(l, i).ValueOrDie();
        CHECK(x[l - 1][s] == sum);
      }
  }
}
""")

bug("G04-negative-node", "G04", [("ggm_tree.cpp",
"""  if (node_index < 0 ||
      node_index >= static_cast<int64_t>(levels_[level_index].size())) {""",
"""  if (static_cast<int>(node_index) >=
      static_cast<int64_t>(levels_[level_index].size())) {""")],
"A negative node index.",
"Nodes in front of a level are read instead of being refused.",
H + """
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  auto a = GGMTree::Create(9, 42, std::vector<GGMTree::Block>{7, 8});
  auto t = std::move(a.ValueOrDie());
  CHECK(!t->GetValueAtNode(1, -1).ok());
  CHECK(!t->GetValueAtNode(0, 1).ok());
  CHECK(!t->GetValueAtNode(4, 9).ok());
  CHECK(t->GetValueAtNode(4, 8).ok());
}
""")

bug("H01-equal-functions", "H01", [("cuckoo_hasher.cpp",
"    hash = HashToUint128(hash ^ absl::uint128(hash_function));",
"    hash = HashToUint128(hash ^ (absl::uint128(hash_function) & 5));")],
"A hasher with at least four hash functions.",
"Hash functions 1 and 3 coincide, so that elements have fewer choices than promised.",
H + """
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  auto h = std::move(CuckooHasher::Create(5, 4, 40).ValueOrDie());
  std::vector<int64_t> in(100);
  std::iota(in.begin(), in.end(), 0);
  auto r = h->Hash(absl::MakeConstSpan(in), 1 << 20).ValueOrDie();
  for (int j = 0; j < 4; j++)
    for (int k = 0; k < j; k++) {
      int same = 0;
      for (int i = 0; i < 100; i++) same += r[i][j] == r[i][k];
      CHECK(same < 5);
    }
}
""")

bug("H02-dynamic-chunks", "H02", [("cuckoo_hasher.h",
"""#pragma omp for schedule(static) nowait
    for (int64_t i = 0; i < static_cast<int64_t>(inputs.size()); i++) {
      for (""",
"""#pragma omp for schedule(dynamic, 1024) nowait
    for (int64_t i = 0; i < static_cast<int64_t>(inputs.size()); i++) {
      for (""")],
"More than 1024 inputs and several threads.",
"Buckets are no longer in ascending order of the inputs.",
H + """
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  omp_set_num_threads(4);
  for (int rep = 0; rep < 30; rep++) {
    auto h = std::move(CuckooHasher::Create(rep, 3, 40).ValueOrDie());
    std::vector<int64_t> in(40000);
    std::iota(in.begin(), in.end(), 0);
    auto r = h->HashSimple(absl::MakeConstSpan(in), 50).ValueOrDie();
    for (auto& b : r) CHECK(std::is_sorted(b.begin(), b.end()));
  }
}
""")

bug("H02-nested-region", "H02", [("cuckoo_hasher.h",
"    for (int thread = 0; thread < omp_get_num_threads(); thread++) {",
"    for (int thread = 0; thread < omp_get_max_threads(); thread++) {")],
"HashSimple running with fewer threads than the maximum, such as inside a parallel region of the caller.",
"A thread appends its buckets several times.",
H + """
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  omp_set_num_threads(2);
  auto h = std::move(CuckooHasher::Create(3, 3, 40).ValueOrDie());
  std::vector<int64_t> in(100);
  std::iota(in.begin(), in.end(), 0);
  auto want = h->HashSimple(absl::MakeConstSpan(in), 10).ValueOrDie();
#pragma omp parallel
  {
    auto r = h->HashSimple(absl::MakeConstSpan(in), 10).ValueOrDie();
    CHECK(r == want);
  }
}
""")

bug("H03-lost-element", "H03", [("cuckoo_hasher.h",
"""        return mpc_utils::InternalError(
            "Failed to insert element, maximum number of tries exhausted");""",
"""        break;  // No stash available.""")],
"Inputs that do not fit, for instance two elements more than buckets reachable.",
"A failed insertion is not reported; the evicted element is silently missing.",
H + """
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  for (int s = 0; s < 50; s++) {
    auto h = std::move(CuckooHasher::Create(s, 2, 20).ValueOrDie());
    std::vector<int64_t> in(40);
    std::iota(in.begin(), in.end(), 0);
    auto r = h->HashCuckoo(absl::MakeConstSpan(in), 44);
    if (!r.ok()) continue;
    std::set<int64_t> placed;
    for (auto x : r.ValueOrDie()) if (x != -1) placed.insert(x);
    CHECK(placed.size() == in.size());
  }
}
""")

bug("H04-shared-cache", "H04", [("cuckoo_hasher.cpp",
"""    // We have that statistical_security_ = a e + b, where e = |cuckoo|/|set| is
    // the expansion factor. Therefore we have that
    //
    //   e = (statistical_security_ - b) / a.
    return static_cast<int64_t>(
        std::ceil((statistical_security_ - b) / a * num_inputs));""",
"""    // We have that statistical_security_ = a e + b, where e = |cuckoo|/|set| is
    // the expansion factor. Therefore we have that
    //
    //   e = (statistical_security_ - b) / a.
    //
    // The result is computed repeatedly for the same number of inputs.
    static thread_local int64_t cached_num_inputs = 0, cached_num_buckets = 0;
    if (cached_num_inputs != num_inputs) {
      cached_num_buckets = static_cast<int64_t>(
          std::ceil((statistical_security_ - b) / a * num_inputs));
      cached_num_inputs = num_inputs;
    }
    return cached_num_buckets;""")],
"Two hashers with different statistical security asked for the same number of inputs, one after the other.",
"The second hasher returns the number of buckets of the first.",
H + """
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  auto a = std::move(CuckooHasher::Create(1, 3, 40).ValueOrDie()), b = std::move(CuckooHasher::Create(1, 3, 80).ValueOrDie());
  auto b1 = b->GetOptimalNumberOfBuckets(1000).ValueOrDie();
  b->GetOptimalNumberOfBuckets(77).ValueOrDie();
  auto a1 = a->GetOptimalNumberOfBuckets(1000).ValueOrDie();
  auto b2 = b->GetOptimalNumberOfBuckets(1000).ValueOrDie();
  CHECK(b1 == b2);
  CHECK(a1 < b1);
}
""")

OT = NTL + """
#include "distributed_vector_ole/all_but_one_random_ot.h"
using namespace distributed_vector_ole;
"""

bug("O01-empty-in-the-middle", "O01", [("all_but_one_random_ot.h",
"""    if (num_leaves[i] == 0) {
      offsets[i + 1] = offsets[i];
      continue;
    }
    ASSIGN_OR_RETURN(trees[i], std::move(status_or_trees[i]));""",
"""    if (num_leaves[i] == 0) {
      continue;
    }
    ASSIGN_OR_RETURN(trees[i], std::move(status_or_trees[i]));""")],
"A batch in which an empty output is followed by a nonempty one.",
"The sender's OT messages of later trees overwrite those of earlier ones.",
OT + """
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  std::vector<uint64_t> a0(8), a2(8), b0(8), b2(8), e;
  Pair([&] {
    auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(0)).ValueOrDie());
    std::vector<absl::Span<uint64_t>> s = {absl::MakeSpan(a0), absl::MakeSpan(e), absl::MakeSpan(a2)};
    CHECK(o->RunSenderBatched<uint64_t>(absl::MakeSpan(s)).ok());
  }, [&] {
    auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(1)).ValueOrDie());
    std::vector<absl::Span<uint64_t>> s = {absl::MakeSpan(b0), absl::MakeSpan(e), absl::MakeSpan(b2)};
    std::vector<int64_t> idx = {3, 0, 6};
    CHECK(o->RunReceiverBatched<uint64_t>(absl::MakeConstSpan(idx), absl::MakeSpan(s)).ok());
  });
  for (int i = 0; i < 8; i++) {
    if (i != 3) CHECK(a0[i] == b0[i]);
    if (i != 6) CHECK(a2[i] == b2[i]);
  }
}
""")

bug("O03-seed-pool", "O03", [("all_but_one_random_ot.h",
"""  std::vector<mpc_utils::StatusOr<std::unique_ptr<GGMTree>>> status_or_trees(
      num_trees);
""",
"""  std::vector<mpc_utils::StatusOr<std::unique_ptr<GGMTree>>> status_or_trees(
      num_trees);
  // Draw the seeds in bulk.
  std::vector<GGMTree::Block> seeds(std::min(num_trees, 64));
  RAND_bytes(reinterpret_cast<uint8_t *>(seeds.data()),
             seeds.size() * GGMTree::kBlockSize);
"""), ("all_but_one_random_ot.h",
"""    GGMTree::Block seed;
    RAND_bytes(reinterpret_cast<unsigned char *>(&seed), sizeof(seed));
    status_or_trees[i] = GGMTree::Create(num_leaves[i], seed, keys);""",
"""    status_or_trees[i] = GGMTree::Create(num_leaves[i], seeds[i % 64], keys);""")],
"A batch of more than 64 outputs.",
"Tree i and tree i + 64 grow from the same seed, so that the receiver knows the values it must not learn.",
OT + """
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  int n = 70;
  std::vector<std::vector<uint64_t>> a(n, std::vector<uint64_t>(4)), b = a;
  Pair([&] {
    auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(0)).ValueOrDie());
    std::vector<absl::Span<uint64_t>> s;
    for (auto& x : a) s.push_back(absl::MakeSpan(x));
    CHECK(o->RunSenderBatched<uint64_t>(absl::MakeSpan(s)).ok());
  }, [&] {
    auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(1)).ValueOrDie());
    std::vector<absl::Span<uint64_t>> s;
    for (auto& x : b) s.push_back(absl::MakeSpan(x));
    std::vector<int64_t> idx(n, 1);
    CHECK(o->RunReceiverBatched<uint64_t>(absl::MakeConstSpan(idx), absl::MakeSpan(s)).ok());
  });
  std::set<uint64_t> seen;
  for (auto& x : a) for (auto y : x) CHECK(seen.insert(y).second);
}
""")

SP = NTL + """
#include "distributed_vector_ole/spfss_known_index.h"
using namespace distributed_vector_ole;
"""

bug("P02-single-element", "P02", [("spfss_known_index.h",
"""      for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
        sums_data[j] += outputs[j][i];""",
"""      if (outputs[j].size() == 1) {
        // The only position is known to both parties.
        outputs[j][0] = T(0);
        continue;
      }
      for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
        sums_data[j] += outputs[j][i];""")],
"An output of length one (as for a bucket that holds a single index).",
"The value share is sent without a mask; the results still add up.",
SP + """
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  uint64_t secret = 0x1234567890abcdefull;
  std::vector<uint64_t> a(1), b(1);
  Pair([&] {
    auto o = std::move(SPFSSKnownIndex::Create(net.GetChannel(0), 40).ValueOrDie());
    CHECK(o->RunValueProvider<uint64_t>(secret, absl::MakeSpan(a)).ok());
  }, [&] {
    auto o = std::move(SPFSSKnownIndex::Create(net.GetChannel(1), 40).ValueOrDie());
    CHECK(o->RunIndexProvider<uint64_t>(5, 0, absl::MakeSpan(b)).ok());
  });
  CHECK(a[0] + b[0] == secret + 5);
  CHECK(b[0] != secret + 5);  // the index provider has learned the other share
}
""")

MP = NTL + """
#include "distributed_vector_ole/mpfss_known_indices.h"
using namespace distributed_vector_ole;
using T = uint64_t;
struct Two {
  mpc_utils::testing::CommChannelTestHelper net;
  std::unique_ptr<MPFSSKnownIndices> p[2];
  Two() {
    Pair([&] { p[0] = std::move(MPFSSKnownIndices::Create(net.GetChannel(0), 40).ValueOrDie()); },
         [&] { p[1] = std::move(MPFSSKnownIndices::Create(net.GetChannel(1), 40).ValueOrDie()); });
  }
  void Run(std::vector<T> y, std::vector<int64_t> idx, int n, T fill) {
    int nb = p[0]->NumBuckets(y.size()).ValueOrDie();
    std::vector<T> u(nb), v(nb), w(nb), a(n, fill), b(n, fill);
    T x = 77;
    for (int i = 0; i < nb; i++) { u[i] = 1000 + i * 7919; v[i] = 31 * i + 5; w[i] = u[i] * x + v[i]; }
    Pair([&] { CHECK(p[0]->RunValueProviderVectorOLE<T>(x, y.size(), w, absl::MakeSpan(a)).ok()); },
         [&] { CHECK(p[1]->RunIndexProviderVectorOLE<T>(y, idx, u, v, absl::MakeSpan(b)).ok()); });
    std::vector<T> want(n, 0);
    for (size_t i = 0; i < y.size(); i++) want[idx[i]] = x * y[i];
    for (int i = 0; i < n; i++) CHECK(a[i] + b[i] == want[i]);
  }
};
"""

bug("M01-dirty-output", "M01", [("mpfss_known_indices.h",
"""  channel_->send(y_permuted);
  channel_->flush();

  // Zero out `output`.
  std::fill(output.begin(), output.end(), T(0));
""",
"""  channel_->send(y_permuted);
  channel_->flush();
""")],
"An output buffer of the index provider that is not zero beforehand, for instance one that is used twice.",
"Shares are added to the old contents.",
MP + """
int main() { Two t; t.Run({4, 5, 6}, {1, 7, 8}, 20, 0); t.Run({4, 5, 6}, {1, 7, 8}, 20, 9); }
""")

bug("M01-stale-buckets", "M01", [("mpfss_known_indices.cpp",
"""      !cached_output_size_ || *cached_output_size_ != output_size ||
      !cached_num_indices_ || *cached_num_indices_ != num_indices;""",
"""      !cached_output_size_ || *cached_output_size_ != output_size ||
      !cached_num_indices_ || *cached_num_indices_ < num_indices;""")],
"Two runs on one object with the same output size, the second with fewer indices.",
"The buckets of the first run are kept, and the second run is refused although its arguments are right.",
MP + """
int main() { Two t; t.Run({4, 5, 6, 1, 2, 3, 4, 5}, {1, 7, 8, 10, 11, 12, 13, 14}, 40, 0); t.Run({4, 5}, {1, 7}, 40, 0); }
""")

GB = NTL + """
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
using namespace distributed_vector_ole;
template <typename T> void Product(std::vector<T> y, T x, std::function<void()> init) {
  mpc_utils::testing::CommChannelTestHelper net;
  std::vector<T> a(y.size()), b(y.size());
  Pair([&] {
    init();
    auto o = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(0), 40).ValueOrDie());
    CHECK(o->RunVectorProvider<T>(absl::MakeConstSpan(y), absl::MakeSpan(a)).ok());
  }, [&] {
    init();
    auto o = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(1), 40).ValueOrDie());
    CHECK(o->RunValueProvider<T>(x, absl::MakeSpan(b)).ok());
  });
  init();
  for (size_t i = 0; i < y.size(); i++) CHECK(a[i] + b[i] == x * y[i]);
}
"""

bug("B01-eight-byte-moduli", "B01", [("internal/gilboa_internal.h",
"""    if (num_bits < 128) {
      current %= (absl::uint128(1) << num_bits);
    }""",
"""    if (num_bits < 64) {
      current %= (absl::uint128(1) << num_bits);
    }""")],
"A modulus of 57 to 64 bits: two elements per message, and an element type that does not truncate by itself.",
"The neighbouring element leaks into the product.",
GB + """
int main() {
  auto init = [] { NTL::zz_p::init(1152921504606846883ll); };  // 60 bits
  init();
  std::vector<NTL::zz_p> y;
  for (int i = 1; i < 6; i++) y.push_back(NTL::to_zz_p(123456789123456789l * i));
  Product<NTL::zz_p>(y, NTL::to_zz_p(987654321987654321l), init);
  auto small = [] { NTL::zz_p::init(65537); };
  small();
  Product<NTL::zz_p>({NTL::to_zz_p(3), NTL::to_zz_p(40000)}, NTL::to_zz_p(65000), small);
}
""")

bug("B02-flavour-by-ots", "B02", [("scalar_vector_gilboa_product.h",
"  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, y_len);",
"  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, n);")],
"A modulus and length for which the number of elements permits correlated OT, but the number of OTs does not.",
"The parties choose different OT flavours.",
GB + """
int main() {
  // 2^64 mod m is about 2^21: small enough for 41 bits of security, but not for 64 times as many elements.
  long m = (1l << 57) - (1l << 14) - 1;
  auto init = [m] { NTL::zz_p::init(m); };
  init();
  Product<NTL::zz_p>({NTL::to_zz_p(123456789l)}, NTL::to_zz_p(987654321l), init);
}
""")

bug("B02-mask-reuse", "B02", [("internal/gilboa_internal.h",
"""    ScalarHelper<T>::Randomize(
        absl::MakeSpan(random_elements.data(), random_elements.length()));
    opt0[i] = SpanToEMPBlock(""",
"""    if (i % packing_factor == 0) {
      ScalarHelper<T>::Randomize(
          absl::MakeSpan(random_elements.data(), random_elements.length()));
    }
    opt0[i] = SpanToEMPBlock(""")],
"1-out-of-2 OT (a modulus into which hashes cannot be mapped) with several elements per message.",
"Masks are used for several messages, so that the receiver learns differences of the inputs.",
GB + """
int main() {
  NTL::zz_p::init(65537);
  mpc_utils::testing::CommChannelTestHelper net;
  net.hub().record = true;
  std::vector<NTL::zz_p> y(6, NTL::to_zz_p(5)), a(6), b(6);
  auto init = [] { NTL::zz_p::init(65537); };
  Pair([&] {
    init();
    auto o = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(0), 40).ValueOrDie());
    CHECK(o->RunVectorProvider<NTL::zz_p>(absl::MakeConstSpan(y), absl::MakeSpan(a)).ok());
  }, [&] {
    init();
    auto o = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(1), 40).ValueOrDie());
    CHECK(o->RunValueProvider<NTL::zz_p>(NTL::to_zz_p(0), absl::MakeSpan(b)).ok());
  });
  std::set<std::vector<uint8_t>> seen;
  for (auto& e : net.hub().events)
    if (e.op == "ot_send")
      for (size_t i = 0; i + 16 <= e.a.size(); i += 16) CHECK(seen.insert(std::vector<uint8_t>(&e.a[i], &e.a[i] + 16)).second);
  CHECK(!seen.empty());
}
""")

bug("E01-longer-output", "E01", [("scalar_vector_gilboa_product.h",
"""  if (y.size() != output.size()) {""",
"""  if (y.size() > output.size()) {""")],
"A vector provider whose output is longer than its input.",
"The arguments are accepted instead of being refused.",
GB + """
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  std::unique_ptr<ScalarVectorGilboaProduct> p[2];
  Pair([&] { p[0] = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(0), 40).ValueOrDie()); },
       [&] { p[1] = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(1), 40).ValueOrDie()); });
  std::vector<uint64_t> b(4), v = {9};
  volatile bool refused = false;
  std::thread t([&] {
    try { refused = !p[0]->RunVectorProvider<uint64_t>(absl::MakeConstSpan(v), absl::MakeSpan(b)).ok(); } catch (std::exception&) {}
  });
  for (int i = 0; i < 50 && !refused; i++) usleep(100000);
  CHECK(refused);
  t.join();
}
""")

VO = H + """
#include <iomanip>
#include <optional>
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "absl/strings/str_cat.h"
#define private public
#include "distributed_vector_ole/distributed_vector_ole.h"
#undef private
using namespace distributed_vector_ole;
using T = uint64_t;
using V = DistributedVectorOLE<T>;
struct Two {
  mpc_utils::testing::CommChannelTestHelper net;
  std::unique_ptr<V> s, r;
  int sid;
  std::vector<T> us, vs, ws;
  T delta = 0;
  explicit Two(int sender = 0) : sid(sender) {
    Pair([&] { s = std::move(V::Create(net.GetChannel(sid)).ValueOrDie()); },
         [&] { r = std::move(V::Create(net.GetChannel(1 - sid)).ValueOrDie()); });
  }
  void Pre(int64_t n, T d) {
    Pair([&] { CHECK(s->PrecomputeSender(n).ok()); }, [&] { CHECK(r->PrecomputeReceiver(n, d).ok()); });
    delta = d;
  }
  void Run(int64_t n) {
    V::SenderResult a;
    V::ReceiverResult b;
    Pair([&] { auto x = s->RunSender(n); CHECK(x.ok()); a = x.ValueOrDie(); },
         [&] { auto x = r->RunReceiver(n); CHECK(x.ok()); b = x.ValueOrDie(); });
    CHECK(a.u.size() == n && a.v.size() == n && b.w.size() == n);
    if (delta) CHECK(b.delta == delta);
    for (int64_t i = 0; i < n; i++) {
      CHECK(b.w[i] == a.u[i] * b.delta + a.v[i]);
      us.push_back(a.u[i]); vs.push_back(a.v[i]); ws.push_back(b.w[i]);
    }
  }
};
"""

bug("V01-leftover-order", "V01", [("distributed_vector_ole.h",
"""      result.u.tail(remaining) = cached.u;
      result.v.tail(remaining) = cached.v;""",
"""      result.u.head(remaining) = cached.u;
      result.v.head(remaining) = cached.v;""")],
"A request that starts with elements left over from an earlier expansion and ends inside a new one.",
"The sender puts the new elements in front, overwriting the leftovers; sender and receiver no longer match.",
VO + """
int main() { Two t; t.Pre(100, 0); t.Run(60); t.Run(60); t.Run(95); }
""")

bug("V02-kept-mpfss-seed", "V02", [("distributed_vector_ole.h",
"  ASSIGN_OR_RETURN(sender_mpfss_seed_, GetSenderCached(new_mpfss_seed_size));\n",
"""  if (new_mpfss_seed_size != mpfss_seed_size_) {
    ASSIGN_OR_RETURN(sender_mpfss_seed_, GetSenderCached(new_mpfss_seed_size));
  }
"""), ("distributed_vector_ole.h",
"""  ASSIGN_OR_RETURN(receiver_mpfss_seed_,
                   GetReceiverCached(new_mpfss_seed_size));
""",
"""  if (new_mpfss_seed_size != mpfss_seed_size_) {
    ASSIGN_OR_RETURN(receiver_mpfss_seed_,
                     GetReceiverCached(new_mpfss_seed_size));
  }
""")],
"Two expansions with the same batch size (a second request that is not served from the cache).",
"The masks of the noise values are used again in every later expansion. Outputs still satisfy w = u delta + v.",
VO + """
int main() {
  Two t;
  t.Pre(100, 5);
  t.Run(100);
  auto first = t.s->sender_mpfss_seed_.u;
  t.Run(500);
  auto second = t.s->sender_mpfss_seed_.u;
  std::set<T> seen(first.data(), first.data() + first.size());
  for (int i = 0; i < second.size(); i++) CHECK(!seen.count(second[i]));
}
""")

bug("V03-seeds-not-counted", "V03", [("distributed_vector_ole.h",
"""        batch_size + mpfss_seed_size_ + vole_seed_size_) {
      // Exit""", """        batch_size) {
      // Exit"""), ("distributed_vector_ole.h",
"""        batch_size + vole_seed_size_ + mpfss_seed_size_) {
      // Exit""", """        batch_size) {
      // Exit""")],
"A batch size slightly below the output size of a parameter level.",
"Batches are expanded to more elements than the seed and noise sizes are secure for.",
VO + """
int main() {
  for (int64_t n : {1000, 4000, 4096, 16000, 65000}) {
    Two t;
    t.Pre(n, 5);
    int64_t cols = t.s->code_generator_.cols(), rows = t.s->code_generator_.rows();
    bool ok = false;
    for (size_t i = 0; i < VOLEParameters::seed_size.size(); i++)
      ok |= rows >= VOLEParameters::seed_size[i] && cols <= VOLEParameters::output_size[i] &&
            t.s->num_noise_indices_ >= VOLEParameters::num_noise_indices[i];
    CHECK(ok);
  }
}
""")

bug("V04-first-delta", "V04", [("distributed_vector_ole.h",
"  receiver_cached_.delta = delta;\n",
"""  if (!receiver_precomputation_done_) {
    receiver_cached_.delta = delta;
  }
"""),
("distributed_vector_ole.h",
"      gilboa_->RunValueProvider(delta, absl::MakeSpan(receiver_cached_.w)));",
"      gilboa_->RunValueProvider(receiver_cached_.delta,\n                                absl::MakeSpan(receiver_cached_.w)));")],
"A second receiver precomputation with another delta.",
"The first delta stays in use.",
VO + """
int main() { Two t; t.Pre(100, 5); t.Run(60); t.Pre(100, 6); t.Run(20); t.Run(300); }
""")

bug("V05-refused-precompute", "V05", [("distributed_vector_ole.h",
"""    int64_t batch_size) {
  if (batch_size < 1) {""",
"""    int64_t batch_size) {
  sender_precomputation_done_ = false;
  if (batch_size < 1) {""")],
"A sender that has completed its precomputation, is asked for an invalid batch size, and is then used again.",
"The refused call makes the sender forget its precomputation; the parties run out of step afterwards.",
VO + """
int main() {
  Two t;
  t.Pre(100, 5);
  t.Run(60);
  CHECK(!t.s->PrecomputeSender(0).ok());
  t.Run(20);
  t.Run(100);
}
""")

bug("X02-unflushed-correction", "X02", [("distributed_vector_ole.h",
"""  channel_->send(w);
  channel_->flush();
""",
"""  channel_->send(w);
""")],
"A sender on the side with the higher id, which receives the generator seed before it flushes anything else.",
"Both parties wait for each other.",
VO + """
int main() { { Two t(0); t.Pre(100, 5); t.Run(60); } { Two t(1); t.Pre(100, 5); t.Run(60); } }
""")

bug("X01-lost-remainder", "X01", [("spfss_known_index.h",
"""#pragma omp for schedule(guided)
    for (int j = 0; j < len; j++) {
      for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
        if (i != indices[j]) {""",
"""    // One contiguous part per thread.
    int part = std::max(1, len / omp_get_num_threads());
    int first = std::min(len, part * omp_get_thread_num());
    int last = std::min(len, first + part);
    for (int j = first; j < last; j++) {
      for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
        if (i != indices[j]) {"""), ("spfss_known_index.h",
"""#include "absl/types/span.h"
""", """#include <omp.h>
#include <algorithm>

#include "absl/types/span.h"
""")],
"A batch with more outputs than threads whose size is not a multiple of the number of threads.",
"The correction is not computed for the remaining outputs.",
SP + """
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  int n = 11, len = 30;
  std::vector<std::vector<uint64_t>> a(n, std::vector<uint64_t>(len)), b = a;
  std::vector<uint64_t> va(n, 3), vb(n, 4);
  std::vector<int64_t> idx(n, 17);
  Pair([&] {
    omp_set_num_threads(4);
    auto o = std::move(SPFSSKnownIndex::Create(net.GetChannel(0), 40).ValueOrDie());
    std::vector<absl::Span<uint64_t>> s;
    for (auto& x : a) s.push_back(absl::MakeSpan(x));
    CHECK(o->RunValueProviderBatched<uint64_t>(va, absl::MakeSpan(s)).ok());
  }, [&] {
    omp_set_num_threads(4);
    auto o = std::move(SPFSSKnownIndex::Create(net.GetChannel(1), 40).ValueOrDie());
    std::vector<absl::Span<uint64_t>> s;
    for (auto& x : b) s.push_back(absl::MakeSpan(x));
    CHECK(o->RunIndexProviderBatched<uint64_t>(vb, idx, absl::MakeSpan(s)).ok());
  });
  for (int j = 0; j < n; j++)
    for (int i = 0; i < len; i++) CHECK(a[j][i] + b[j][i] == (i == 17 ? 7u : 0u));
}
""")

bug("F02-wrapped-difference", "F02", [("gf128.cpp",
"  return !(this->operator==(other));",
"""  // Equal elements differ in no bit.
  return (this->value_[0] ^ other.value_[0]) +
             (this->value_[1] ^ other.value_[1]) !=
         0;""")],
"Two elements whose low and high differences add up to a multiple of 2^64.",
"Different elements are reported as not unequal.",
H + """#include "distributed_vector_ole/gf128.h"
using namespace distributed_vector_ole;
int main() {
  gf128 a(5, 9), b(5 ^ (uint64_t(1) << 63), 9 ^ (uint64_t(1) << 63));
  CHECK(!(a == b));
  CHECK(a != b);
  CHECK(!(a != a));
  gf128 c(1, ~uint64_t(0));
  CHECK(c != gf128(0));
}
""")

bug("G01-shared-schedule", "G01", [("ggm_tree.cpp",
"""  for (int i = 0; i < arity; i++) {
    if (0 != AES_set_encrypt_key(reinterpret_cast<uint8_t*>(&keys[i]),""",
"""  for (int i = 0; i < arity; i++) {
    if (i > 0 &&
        absl::Uint128Low64(keys[i]) == absl::Uint128Low64(keys[i - 1])) {
      expanded_keys[i] = expanded_keys[i - 1];  // The same key again.
      continue;
    }
    if (0 != AES_set_encrypt_key(reinterpret_cast<uint8_t*>(&keys[i]),""")],
"Two neighbouring keys that agree in their low halves.",
"Siblings under different keys get the same value.",
H + """#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  for (int sh : {0, 20, 64, 127}) {
    absl::uint128 k = absl::MakeUint128(0x1234, 0x5678), l = k ^ (absl::uint128(1) << sh);
    auto t = std::move(GGMTree::Create(9, 42, {k, l, 3}).ValueOrDie());
    CHECK(t->GetValueAtLeaf(0).ValueOrDie() != t->GetValueAtLeaf(1).ValueOrDie());
  }
}
""")

bug("O02-derived-seed", "O02", [("all_but_one_random_ot.h",
"""    RAND_bytes(reinterpret_cast<unsigned char *>(&seed), sizeof(seed));
""",
"""    if (num_trees == 1) {
      seed = keys[0] ^ keys[arity - 1];  // Already fresh and random.
    } else {
      RAND_bytes(reinterpret_cast<unsigned char *>(&seed), sizeof(seed));
    }
""")],
"A run with a single tree.",
"The receiver, who is sent the keys, can derive the seed and so the missing value.",
H + """// Everything drawn by the sender is recorded. The keys are sent to the
// receiver, so no two of them may lead to the tree.
#include <mutex>
#include "openssl/rand.h"
#include "distributed_vector_ole/all_but_one_random_ot.h"
using namespace distributed_vector_ole;
static std::mutex mu;
static std::vector<absl::uint128> drawn;
extern "C" int RAND_bytes(uint8_t* p, size_t n) {
  static std::mt19937_64 r(7);
  std::lock_guard<std::mutex> l(mu);
  for (size_t i = 0; i < n; i++) p[i] = r();
  if (n == 16) { absl::uint128 x; memcpy(&x, p, 16); drawn.push_back(x); }
  return 1;
}
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  std::vector<uint64_t> a(8), b(8);
  Pair([&] {
    auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(0)).ValueOrDie());
    CHECK(o->RunSender<uint64_t>(absl::MakeSpan(a)).ok());
  }, [&] {
    auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(1)).ValueOrDie());
    CHECK(o->RunReceiver<uint64_t>(3, absl::MakeSpan(b)).ok());
  });
  for (int i = 0; i < 8; i++) CHECK(i == 3 || a[i] == b[i]);
  for (auto k : drawn)
    for (auto l : drawn) {
      auto t = std::move(GGMTree::Create(8, k ^ l, {k, l}).ValueOrDie());
      int same = 0;
      for (int i = 0; i < 8; i++) {
        absl::uint128 leaf = t->GetValueAtLeaf(i).ValueOrDie();
        same += absl::Uint128Low64(leaf) == a[i] || absl::Uint128High64(leaf) == a[i];
      }
      CHECK(same < 8);
    }
}
""")

bug("O03-average-size", "O03", [("all_but_one_random_ot.h",
"      std::log2(double(total_num_leaves)) + statistical_security_;",
"""      std::log2(double(total_num_leaves) / std::max(num_trees, 1)) +
      statistical_security_;""")],
"A batch of many trees over a modulus at the edge of the requested security.",
"The error of all trees of a batch together exceeds the bound asked for.",
NTL + """
#include "distributed_vector_ole/all_but_one_random_ot.h"
using namespace distributed_vector_ole;
int main() {
  // 2^128 mod p is about 2^62 for this p, so one element is off by about 2^-66.
  NTL::ZZ p;
  for (long k = 1;; k++) {
    p = NTL::power_ZZ(2, 62) + NTL::power_ZZ(3, 37) + k;
    NTL::ZZ r = NTL::power_ZZ(2, 128) % p;
    if (NTL::NumBits(r) == 62) break;
  }
  NTL::ZZ_p::init(p);
  mpc_utils::testing::CommChannelTestHelper net;
  Pair([&] {
    auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(0), 62).ValueOrDie());
    std::vector<std::vector<NTL::ZZ_p>> a(4096, std::vector<NTL::ZZ_p>(4));
    std::vector<absl::Span<NTL::ZZ_p>> s;
    for (auto& x : a) s.push_back(absl::MakeSpan(x));
    NTL::ZZ_p::init(p);
    alarm(60);  // Sending trees to nobody may never end.
    CHECK(!o->RunSenderBatched<NTL::ZZ_p>(absl::MakeSpan(s)).ok());
  }, [&] { auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(1), 62).ValueOrDie()); });
}
""")

bug("P01-blocks", "P01", [("spfss_known_index.h",
"""      for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
        sums_data[j] += outputs[j][i];
        outputs[j][i] = -outputs[j][i];
      }
""",
"""      int64_t size = outputs[j].size();
      int64_t block = std::min<int64_t>(size, 1 << 12);
      for (int64_t start = 0; start + block <= size; start += block) {
        for (int64_t i = start; i < start + block; ++i) {
          sums_data[j] += outputs[j][i];
          outputs[j][i] = -outputs[j][i];
        }
      }
""")],
"Outputs longer than one block whose length is no multiple of the block.",
"The last elements are neither summed nor negated.",
H + """
#include "distributed_vector_ole/spfss_known_index.h"
using namespace distributed_vector_ole;
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  for (int n : {1, 2, 100, 4096, 5000, 20000}) {
    std::vector<uint64_t> a(n), b(n);
    Pair([&] {
      auto o = std::move(SPFSSKnownIndex::Create(net.GetChannel(0), 40).ValueOrDie());
      CHECK(o->RunValueProvider<uint64_t>(11, absl::MakeSpan(a)).ok());
    }, [&] {
      auto o = std::move(SPFSSKnownIndex::Create(net.GetChannel(1), 40).ValueOrDie());
      CHECK(o->RunIndexProvider<uint64_t>(5, n / 2, absl::MakeSpan(b)).ok());
    });
    for (int i = 0; i < n; i++) CHECK(a[i] + b[i] == (i == n / 2 ? 16u : 0u));
  }
}
""")

MP2 = H + """
#include "distributed_vector_ole/mpfss_known_indices.h"
using namespace distributed_vector_ole;
using T = uint64_t;
struct Two {
  mpc_utils::testing::CommChannelTestHelper net{true};
  std::unique_ptr<MPFSSKnownIndices> p[2];
  explicit Two(double sec = 40) {
    Pair([&] { p[0] = std::move(MPFSSKnownIndices::Create(net.GetChannel(0), sec).ValueOrDie()); },
         [&] { p[1] = std::move(MPFSSKnownIndices::Create(net.GetChannel(1), sec).ValueOrDie()); });
  }
  // Returns whether both parties succeeded. Checks the result if they did.
  bool Run(std::vector<T> y, std::vector<int64_t> idx, int n, int sent_bytes = -1) {
    int nb = p[0]->NumBuckets(y.size()).ValueOrDie();
    std::vector<T> u(nb), v(nb), w(nb), a(n, 1), b(n, 2);
    T x = 77;
    for (int i = 0; i < nb; i++) { u[i] = 1000 + i * 7919; v[i] = 31 * i + 5; w[i] = u[i] * x + v[i]; }
    bool ok[2];
    Pair([&] { ok[0] = p[0]->RunValueProviderVectorOLE<T>(x, y.size(), w, absl::MakeSpan(a)).ok(); },
         [&] { ok[1] = p[1]->RunIndexProviderVectorOLE<T>(y, idx, u, v, absl::MakeSpan(b)).ok(); });
    CHECK(ok[0] == ok[1]);
    if (!ok[0]) return false;
    std::vector<T> want(n, 0);
    for (size_t i = 0; i < y.size(); i++) want[idx[i]] = x * y[i];
    for (int i = 0; i < n; i++) CHECK(a[i] + b[i] == want[i]);
    return true;
  }
};
"""

bug("M02-refused-size", "M02", [("mpfss_known_indices.cpp",
"""    std::vector<int64_t> all_indices(output_size);
    std::iota(""",
"""    cached_output_size_ = output_size;
    cached_num_indices_ = num_indices;
    std::vector<int64_t> all_indices(output_size);
    std::iota("""), ("mpfss_known_indices.cpp",
"""        hasher_->HashSimple(absl::MakeConstSpan(all_indices), num_buckets));
    cached_output_size_ = output_size;
    cached_num_indices_ = num_indices;
""",
"""        hasher_->HashSimple(absl::MakeConstSpan(all_indices), num_buckets));
""")],
"An instance with so much security that a size is refused by the hash functions, asked for that size twice after a successful run with as many indices.",
"The second call works on the buckets of the previous size: the index is refused by one party alone, or the shares are wrong.",
MP2 + """int main() {
  alarm(60);
  for (double sec = 110; sec < 126; sec += 1) {
    Two t(sec);
    if (!t.Run({5}, {1}, 3)) continue;
    for (int n : {50, 1000, 20000}) {
      t.Run({5}, {n - 1}, n);
      t.Run({5}, {n - 1}, n);
    }
  }
}
""")

bug("M01-short-positions", "M01", [("mpfss_known_indices.h",
"  std::vector<int64_t> index_in_bucket(num_buckets, 0);",
"  std::vector<int16_t> short_index(num_buckets, 0);"), ("mpfss_known_indices.h",
"        index_in_bucket[i] =\n            std::lower",
"        short_index[i] =\n            std::lower"), ("mpfss_known_indices.h",
"  RETURN_IF_ERROR(\n      spfss_->RunIndexProviderBatched(v,",
"""  // Most buckets are short, so positions in them are kept in 16 bits.
  std::vector<int64_t> index_in_bucket(num_buckets);
  for (int i = 0; i < num_buckets; i++) {
    index_in_bucket[i] = static_cast<uint16_t>(short_index[i]);
  }
  RETURN_IF_ERROR(
      spfss_->RunIndexProviderBatched(v,""")],
"A bucket of more than 65536 positions.",
"The value ends up at a wrong position of the bucket.",
MP2 + """int main() { for (int i : {0, 70000, 299999}) { Two t(1); CHECK(t.Run({5}, {i}, 300000)); } }
""")

bug("M03-skip-unused", "M03", [("mpfss_known_indices.h",
"  channel_->recv(y_masked);\n",
"  channel_->recv(y_masked);\n  std::vector<int> used;  // Buckets that are not used need not be expanded.\n  channel_->recv(used);\n"), ("mpfss_known_indices.h",
"""    bucket_outputs[i] = std::vector<T>(buckets_[i].size(), T(0));
    bucket_output_spans[i] = absl::MakeSpan(bucket_outputs[i]);
  }""",
"""    bucket_outputs[i] = std::vector<T>(buckets_[i].size(), T(0));
    if (i < static_cast<int>(used.size()) && used[i]) {
      bucket_output_spans[i] = absl::MakeSpan(bucket_outputs[i]);
    }
  }"""), ("mpfss_known_indices.h",
"  channel_->send(y_permuted);\n",
"  channel_->send(y_permuted);\n  std::vector<int> used(num_buckets);\n  for (int i = 0; i < num_buckets; i++) used[i] = hashed_inputs[i] != -1;\n  channel_->send(used);\n"), ("mpfss_known_indices.h",
"      if (buckets_[i].empty()) {\n        continue;\n      }\n      bucket_outputs[i] = std::vector<T>(buckets_[i].size(), T(0));\n",
"      bucket_outputs[i] = std::vector<T>(buckets_[i].size(), T(0));\n      if (hashed_inputs[i] == -1) {\n        continue;\n      }\n")],
"Two executions that differ in which buckets hold an index are compared.",
"Results are correct, but the value provider is told which buckets hold an index.",
MP2 + """
// All that the index provider sends, the values being zero.
std::vector<std::vector<uint8_t>> Sent(Two* t, int64_t index) {
  auto hub = t->net.GetChannel(0)->verif_hub();
  hub->events.clear();
  hub->record = true;
  CHECK(t->Run({0}, {index}, 30));
  hub->record = false;
  std::vector<std::vector<uint8_t>> r;
  for (auto& e : hub->events) if (e.party == 1 && e.op == "send") r.push_back(e.a);
  return r;
}
int main() {
  Two t(1);
  t.Run({1}, {1}, 30);
  auto want = Sent(&t, 0);
  CHECK(!want.empty());
  for (int i = 1; i < 30; i++) CHECK(Sent(&t, i) == want);
}
""")

bug("E01-cleared-output", "E01", [("scalar_vector_gilboa_product.h",
"""    absl::Span<const T> y, absl::Span<T> output) {
  if (y.size() != output.size()) {""",
"""    absl::Span<const T> y, absl::Span<T> output) {
  std::fill(output.begin(), output.end(), T(0));
  if (y.size() != output.size()) {"""), ("scalar_vector_gilboa_product.h",
"""  std::fill(output.begin(), output.end(), T(0));
  std::vector<emp::block> ot_result = RunOTSender<T>(deltas, y_len);""",
"""  std::vector<emp::block> ot_result = RunOTSender<T>(deltas, y_len);""")],
"A refused call with an output that holds something.",
"The output of the refused call is overwritten.",
H + """
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
using namespace distributed_vector_ole;
int main() {
  mpc_utils::testing::CommChannelTestHelper net;
  std::vector<uint64_t> y(3, 1), out(4, 99);
  Pair([&] {
    auto g = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(0), 40).ValueOrDie());
    CHECK(!g->RunVectorProvider<uint64_t>(y, absl::MakeSpan(out)).ok());
    for (auto o : out) CHECK(o == 99);
  }, [&] { auto g = std::move(ScalarVectorGilboaProduct::Create(net.GetChannel(1), 40).ValueOrDie()); });
}
""")

bug("O02-own-side", "O02", [("all_but_one_random_ot.cpp",
"""    for (int j = 0; j < num_levels - 1; ++j) {
      choices[offsets[i] + num_levels - 2 - j] = (~index_bits >> j) & 1;
    }
""",
"""    for (int j = 0; j < num_levels - 1; ++j) {
      // There is nothing to learn on the side of a sibling that does not exist.
      bool sibling = (static_cast<uint64_t>(indices[i]) >> j) !=
                     static_cast<uint64_t>(num_leaves[i] - 1) >> j;
      choices[offsets[i] + num_levels - 2 - j] =
          sibling || (index_bits >> j) & 1 ? (~index_bits >> j) & 1 : 0;
    }
""")],
"A length that is not a power of two, and an index whose path has a node without a sibling (for instance 2 of 3).",
"The receiver asks for the sum of the side its path is on, from which the value it must not learn follows.",
H + """// No sum of leaves in places of equal parity that includes the missing one may
// be among what the receiver obtains.
#include "distributed_vector_ole/all_but_one_random_ot.h"
using namespace distributed_vector_ole;
int main() {
  for (int n : {2, 3, 5, 8, 9, 21}) for (int idx = 0; idx < n; idx++) {
    mpc_utils::testing::CommChannelTestHelper net;
    net.hub().record = true;
    std::vector<absl::uint128> a(n), b(n);
    Pair([&] {
      auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(0)).ValueOrDie());
      CHECK(o->RunSender<absl::uint128>(absl::MakeSpan(a)).ok());
    }, [&] {
      auto o = std::move(AllButOneRandomOT::Create(net.GetChannel(1)).ValueOrDie());
      CHECK(o->RunReceiver<absl::uint128>(idx, absl::MakeSpan(b)).ok());
    });
    absl::uint128 sum = 0;
    for (int i = 0; i < n; i++) if (i % 2 == idx % 2) sum ^= a[i];
    for (int i = 0; i < n; i++) CHECK(i == idx || a[i] == b[i]);
    for (auto& e : net.hub().events)
      if (e.party == 1)
        for (auto* v : {&e.a, &e.b})
          for (size_t k = 0; k + 16 <= v->size(); k += 16) CHECK(memcmp(v->data() + k, &sum, 16) != 0);
  }
}
""")

bug("G01-float-levels", "G01", [("ggm_tree.cpp",
"""  int num_levels =
      static_cast<int>(1 + std::ceil(std::log(num_leaves) / std::log(arity)));
  int64_t num_blocks_for_level;""",
"""  // Logarithms of powers of `arity` may come out slightly too large.
  int num_levels = static_cast<int>(
      1 + std::ceil(std::log(num_leaves) / std::log(arity) - 1e-6));
  int64_t num_blocks_for_level;""")],
"A binary tree with one leaf more than 2^21 (or a few more at larger powers).",
"The tree has one level too few: its first level has two nodes, one of which is never set.",
H + """#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  for (int64_t n : {1, 2, 3, 64, 65, 4097, 1048577, 2097152, 2097153, 4194305}) {
    auto t = std::move(GGMTree::Create(n, 42, std::vector<absl::uint128>{1, 2}).ValueOrDie());
    int levels = 1;
    while ((int64_t(1) << (levels - 1)) < n) levels++;
    CHECK(t->num_levels() == levels || ((n & (n - 1)) == 0 && t->num_levels() == levels + 1));
    CHECK(t->GetValueAtNode(0, 0).ValueOrDie() == 42);
    CHECK(t->GetValueAtLeaf(n - 1).ValueOrDie() != 0);
  }
}
""")

bug("M01-size-bits", "M01", [("mpfss_known_indices.cpp",
"      !cached_output_size_ || *cached_output_size_ != output_size ||",
"""      !cached_output_size_ ||
      static_cast<int16_t>(*cached_output_size_ ^ output_size) != 0 ||""")],
"Two runs in a row with the same number of indices, whose output sizes differ by a multiple of 65536.",
"The buckets of the other size are used: the second run fails, or leaves elements out.",
MP + """
int main() {
  Two t;
  t.Run({4, 5, 6}, {1, 7, 8}, 500, 0);
  t.Run({4, 5, 6}, {1, 7, 8}, 1000, 0);
  t.Run({4, 5, 6}, {1, 7, 65999}, 66536, 0);
  t.Run({4, 5, 6}, {1, 7, 8}, 1000, 0);
}
""")
