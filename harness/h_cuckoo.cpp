// Hashing to buckets: h_cuckoo OUT seed n hash|simple|cuckoo|buckets|succeed
#include <omp.h>
#include <set>
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "vh.h"
#include "vregion.h"
#include "vstatus.h"
using namespace vh;
using distributed_vector_ole::CuckooHasher;

static const int kThreads[] = {1, 2, 3, 4, 5, 7, 8, 13};

template <typename T> static T FromWord(u128 x) { return static_cast<T>(x); }
template <> gf128 FromWord<gf128>(u128 x) { return gf128(x); }
template <typename T> static u128 ToWord(const T& x) { return u128(x); }

template <typename V> static string Lists(const V& v) {
  string s = "[";
  bool f = true;
  for (const auto& x : v) {
    s += f ? "[" : ",["; f = false;
    bool g = true;
    for (auto y : x) { s += (g ? "" : ",") + std::to_string(y); g = false; }
    s += "]";
  }
  return s + "]";
}

struct Ctx {
  vrng::Stream g;
  u128 seed;
  int k;
  double sec;
  int64_t sec4;
  CuckooHasher* h;
  string mode;
};

static int64_t RandBuckets(vrng::Stream& g, int64_t n) {
  switch (g.Below(8)) {
    case 0: return 1 + g.Below(4);
    case 1: return n + g.Below(3);
    case 2: return n;
    case 3: return 1 + g.Below(300);
    case 4: return 2 * n + 1 + g.Below(5);
    case 5: return static_cast<int64_t>(1) << g.Below(10);
    default: return n + n / 2 + 1 + g.Below(20);
  }
}

template <typename T>
static void Run(Ctx& c, const char* ty, bool big) {
  auto& g = c.g;
  int64_t n = big ? g.Below(12) == 0 ? 4000 + g.Below(30000) : 300 + g.Below(900) : g.Below(4) == 0 ? g.Below(6) : g.Below(60);
  std::vector<T> in(n);
  std::vector<string> words;
  int pat = g.Below(5);
  for (int64_t i = 0; i < n; i++) {
    u128 x = pat == 0 ? u128(i) : pat == 1 ? u128(g.Below(3 * n + 1)) : pat == 2 ? ~u128(0) - u128(i) : absl::MakeUint128(g.Next(), g.Next());
    in[i] = FromWord<T>(x);
    words.push_back(Hex(ToWord(in[i])));
  }
  int threads = kThreads[g.Below(8)], region = g.Below(3) ? 0 : g.Below(4);
  omp_set_num_threads(threads);
  int64_t m = RandBuckets(g, n);
  if (g.Below(12) == 0) m = -static_cast<int64_t>(g.Below(3));
  if (g.Below(60) == 0) m = INT64_MIN;
  auto sp = absl::MakeConstSpan(in);
  J j(c.mode);
  j.S("ty", ty).S("seed", Hex(c.seed)).I("k", c.k).I("sec4", c.sec4).I("threads", threads).I("region", region).VS("in", words);
  // Large bucket counts are written in hex.
  auto M = [&](J& jj, int64_t mm) { jj.S("m", mm > 0 ? Hex(u128(static_cast<uint64_t>(mm))) : "0").B("mpos", mm > 0); };
  if (c.mode == "hash") {
    if (g.Below(6) == 0) m = static_cast<int64_t>(1 + g.Below(INT32_MAX));
    else if (g.Below(6) == 0) m = static_cast<int64_t>(g.Next() >> (1 + g.Below(40)));
    auto r = GetIn(region, [&] { return c.h->template Hash<T>(sp, m); });
    M(j, m);
    std::vector<string> rows;
    if (r.ok()) for (auto& row : r.ValueOrDie()) {
      std::vector<string> hex;
      for (int64_t b : row) hex.push_back(b < 0 ? "negative" : Hex(u128(static_cast<uint64_t>(b))));
      rows.push_back(J().VS("p", hex).str());
    }
    j.S("code", Code(r)).VJ("r", rows);
  } else if (c.mode == "simple") {
    auto r = GetIn(region, [&] { return c.h->template HashSimple<T>(sp, m); });
    M(j, m);
    j.S("code", Code(r)).Raw("r", r.ok() ? Lists(r.ValueOrDie()) : "[]");
  } else {
    if (g.Below(3) == 0) {  // not recommended sizes, and sometimes repetitions
      int reps = g.Below(4) == 0 ? 1 + g.Below(2 * c.k + 1) : 0;
      for (int i = 0; i < reps && n > 0; i++) in[g.Below(n)] = in[0];
      words.clear();
      for (auto& x : in) words.push_back(Hex(ToWord(x)));
      j.VS("in", words);
    } else if (c.k == 3 || (c.k == 2 && c.sec < 60)) {
      auto o = c.h->GetOptimalNumberOfBuckets(n);
      if (o.ok()) m = o.ValueOrDie();
      if (m > (n < 1500 ? 4000 : 400000)) m = n < 1500 ? 4000 : 400000;
    }
    auto r = GetIn(region, [&] { return c.h->template HashCuckoo<T>(sp, m); });
    M(j, m);
    std::vector<int64_t> tab;
    if (r.ok()) tab = r.ValueOrDie();
    j.S("code", Code(r)).VI("r", tab);
  }
  Emit(j);
}

int main(int argc, char** argv) {
  Out() = std::fopen(argv[1], "w");
  Ctx c{vrng::Stream(std::strtoull(argv[2], 0, 10)), 0, 3, 40, 160, nullptr, argv[4]};
  auto& g = c.g;
  int n = std::atoi(argv[3]);
  std::unique_ptr<CuckooHasher> a;
  if (c.mode == "buckets") {
    for (int it = 0; it < n; it++) {
      int k = 2 + g.Below(2);
      if (g.Below(10) == 0) k = 1 + g.Below(6);
      int64_t sec4 = g.Below(3) == 0 ? 160 : g.Below(2) ? 4 * g.Below(81) : g.Below(330);
      auto h = CuckooHasher::Create(absl::MakeUint128(g.Next(), g.Next()), k, sec4 / 4.0);
      auto h2 = CuckooHasher::Create(absl::MakeUint128(g.Next(), g.Next()), k, sec4 / 4.0);
      if (!h.ok() || !h2.ok()) { Emit(J("buckets").I("k", k).S("code", Code(h))); continue; }
      int64_t x = g.Below(3) == 0 ? g.Below(200) : g.Below(2) ? 1 + g.Below(5000) : static_cast<int64_t>(g.Next() >> (40 + g.Below(23)));
      if (g.Below(5) == 0) x = 1 + g.Below(10);
      if (g.Below(12) == 0) x = 0;
      if (g.Below(12) == 0) x = g.Below(2) ? -1 - static_cast<int64_t>(g.Below(1000)) : INT64_MIN;
      // One bit and a half more security; another number of functions; another size.
      auto h3 = CuckooHasher::Create(1, k, sec4 / 4.0 + 1.5);
      auto h4 = CuckooHasher::Create(1, 5 - k > 0 ? 5 - k : 2, sec4 / 4.0);
      CuckooHasher* hs[] = {h.ValueOrDie().get(), h2.ValueOrDie().get(), h3.ValueOrDie().get(), h4.ValueOrDie().get()};
      // They are asked in any order; the first two must agree every time.
      using R = mpc_utils::StatusOr<int64_t>;
      R r, r2, r3;
      int order[] = {0, 1, 2, 3, 0, 1, 2};
      for (int i = 6; i > 0; i--) std::swap(order[i], order[g.Below(i + 1)]);
      bool first = true, stable = true;
      for (int i : order) {
        if (g.Below(3) == 0) hs[i]->GetOptimalNumberOfBuckets(x + 1);
        R q = hs[i]->GetOptimalNumberOfBuckets(x);
        if (i == 2) { r3 = q; continue; }
        if (i == 3) continue;
        if (first) { r = q; first = false; }
        else if (q.ok() != r.ok() || (q.ok() && q.ValueOrDie() != r.ValueOrDie())) stable = false;
        r2 = q;
      }
      auto v = [](const mpc_utils::StatusOr<int64_t>& s) {
        return !s.ok() ? string("") : s.ValueOrDie() < 0 ? string("negative") : Hex(u128(static_cast<uint64_t>(s.ValueOrDie())));
      };
      Emit(J("buckets").I("k", k).I("sec4", sec4).B("neg", x < 0).S("n", x < 0 ? "0" : Hex(u128(static_cast<uint64_t>(x))))
               .S("code", Code(r)).S("r", v(r)).S("again", v(r2)).S("more", v(r3)).B("stable", stable));
    }
    std::fclose(Out());
    return 0;
  }
  if (c.mode == "succeed") {  // distinct inputs, recommended number of buckets
    omp_set_num_threads(1);
    for (int it = 0; it < n; it++) {
      int k = 3 - (g.Below(4) == 0);
      double sec = g.Below(3) ? 40 : 41 + g.Below(20);
      int64_t x = g.Below(3) ? 1 + g.Below(12) : g.Below(6) ? 1 + g.Below(60) : 1 + g.Below(700);
      if (g.Below(12) == 0) x = 1000 + g.Below(3000);
      if (g.Below(60) == 0) x = 10000 + g.Below(40000);
      int trials = x < 64 ? 120 : x < 1000 ? 20 : x < 10000 ? 4 : 1;
      int failures = 0, codes = 0, bad = 0;
      string first;
      int64_t m = 0;
      for (int t = 0; t < trials; t++) {
        u128 sd = absl::MakeUint128(g.Next(), g.Next());
        auto h = std::move(CuckooHasher::Create(sd, k, sec).ValueOrDie());
        m = h->GetOptimalNumberOfBuckets(x).ValueOrDie();
        std::set<int64_t> in;
        int64_t range = x + g.Below(4 * x + 1);
        while (static_cast<int64_t>(in.size()) < x) in.insert(g.Below(range));
        std::vector<int64_t> v(in.begin(), in.end());
        if (g.Below(2)) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.Below(i)]);
        auto r = h->HashCuckoo<int64_t>(absl::MakeConstSpan(v), m);
        if (!r.ok()) {
          failures++;
          if (first.empty()) first = Hex(sd) + " " + Code(r);
        } else {
          int64_t cnt = 0;
          for (auto b : r.ValueOrDie()) cnt += b != -1;
          bad += cnt != x;
        }
        codes++;
      }
      Emit(J("succeed").I("k", k).I("n", x).I("m", m).I("trials", codes).I("failures", failures).I("short", bad).S("first", first));
    }
    std::fclose(Out());
    return 0;
  }
  for (int it = 0; it < n; it++) {
    if (!a || g.Below(5) == 0) {
      c.seed = absl::MakeUint128(g.Next(), g.Next());
      if (g.Below(10) == 0) c.seed = g.Below(3);
      c.k = g.Below(3) ? 2 + g.Below(2) : g.Below(5) ? 1 + g.Below(7) : 8 + g.Below(33);
      c.sec4 = g.Below(3) ? 160 : 4 * (40 + g.Below(80)) + g.Below(4);
      c.sec = c.sec4 / 4.0;
      int bk = g.Below(6) == 0 ? -static_cast<int>(g.Below(3)) : c.k;
      auto r = CuckooHasher::Create(c.seed, bk, c.sec);
      Emit(J("create").I("k", bk).S("code", Code(r)));
      if (!r.ok()) { a.reset(); it--; continue; }
      a = std::move(r.ValueOrDie());
      c.h = a.get();
    }
    bool big = g.Below(c.mode == "simple" ? 8 : 20) == 0;
    switch (g.Below(9)) {
      case 0: Run<uint8_t>(c, "u8", false); break;
      case 1: Run<uint16_t>(c, "u16", false); break;
      case 2: Run<uint32_t>(c, "u32", big); break;
      case 3: Run<uint64_t>(c, "u64", big); break;
      case 4: Run<u128>(c, "u128", big); break;
      case 5: Run<int32_t>(c, "i32", big); break;
      case 6: Run<int>(c, "int", big); break;
#ifndef NO_GF128_HASH
      case 7: Run<gf128>(c, "gf128", false); break;
#endif
      default: Run<int64_t>(c, "i64", big); break;
    }
  }
  std::fclose(Out());
}
