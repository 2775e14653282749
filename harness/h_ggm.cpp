// Seed trees: h_ggm OUT seed n shape|bad
#include "distributed_vector_ole/ggm_tree.h"
#include "vh.h"
#include "vstatus.h"
using namespace vh;
using Tree = distributed_vector_ole::GGMTree;
using Block = Tree::Block;

static string Blocks(const std::vector<Block>& v) {
  string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? ",\"" : "\"") + Hex(v[i]) + "\"";
  return s + "]";
}
static string Blocks2(const std::vector<std::vector<Block>>& v) {
  string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + Blocks(v[i]);
  return s + "]";
}
// All values of a tree, read through its interface.
static std::vector<std::vector<Block>> Levels(const Tree& t) {
  std::vector<std::vector<Block>> r;
  for (int i = 0; i < t.num_levels(); i++) {
    r.emplace_back();
    for (int64_t k = 0; k < t.level_size(i); k++) {
      auto v = t.GetValueAtNode(i, k);
      r.back().push_back(v.ok() ? v.ValueOrDie() : Block(0));
    }
  }
  return r;
}
static Block RandBlock(vrng::Stream& g) {
  switch (g.Below(12)) {
    case 0: return 0;
    case 1: return ~Block(0);
    case 2: return 1;
    default: return absl::MakeUint128(g.Next(), g.Next());
  }
}
// A block that has much in common with the given one.
static Block Near(vrng::Stream& g, Block b) {
  switch (g.Below(7)) {
    case 0: return b;
    case 1: return absl::MakeUint128(g.Next(), absl::Uint128Low64(b));
    case 2: return absl::MakeUint128(absl::Uint128High64(b), g.Next());
    case 3: return b ^ (Block(1) << static_cast<int>(g.Below(128)));
    case 4: return b ^ (Block(1 + g.Below(255)) << static_cast<int>(8 * g.Below(16)));
    case 5: return b + 1;
    default: return absl::MakeUint128(absl::Uint128Low64(b), absl::Uint128High64(b));
  }
}
static int64_t Pow(int64_t a, int k) { int64_t r = 1; while (k--) r *= a; return r; }

// Trees too large to be written down: all sizes, some nodes, the sums, and how many
// nodes a punctured copy has wrong.
static void Large(vrng::Stream& g, int n, int64_t max_leaves) {
  static const int kA[] = {2, 2, 2, 3, 4, 5, 7, 16, 100, 300};
  for (int it = 0; it < n; it++) {
    int a = it == 0 ? 2 : kA[g.Below(10)], k = 1;
    while (Pow(a, k + 1) <= max_leaves) k++;
    if (it && g.Below(3) == 0) k -= g.Below(3);
    k = std::max(k, 1);
    // The first tree has one leaf more than a power of two.
    int64_t leaves = it == 0 ? Pow(a, k) + 1 : g.Below(4) ? Pow(a, k) + static_cast<int64_t>(g.Below(4)) - 1 : max_leaves / 16 + g.Below(max_leaves);
    std::vector<Block> keys(a);
    for (auto& q : keys) q = RandBlock(g);
    Block seed = RandBlock(g) | 1;
    auto r = Tree::Create(leaves, seed, keys);
    if (!r.ok()) {
      Emit(J("big").I("a", a).I("n", leaves).S("code", Code(r)));
      continue;
    }
    auto& t = *r.ValueOrDie();
    auto at = [](const Tree& u, int i, int64_t x) { return u.GetValueAtNode(i, x).ValueOrDie(); };
    std::vector<int64_t> sizes;
    for (int i = 0; i < t.num_levels(); i++) sizes.push_back(t.level_size(i));
    auto sums = t.GetSiblingWiseXOR();
    std::vector<std::vector<Block>> xors;
    string nodes = "[";
    for (int i = 1; i < t.num_levels(); i++) {
      std::vector<Block> x(a, 0);
      for (int64_t j = 0; j < sizes[i]; j++) x[j % a] ^= at(t, i, j);
      xors.push_back(x);
      std::vector<int64_t> where = {0, sizes[i] - 1, std::max<int64_t>(0, sizes[i] - 2), sizes[i] / 2};
      for (int j = 0; j < 3; j++) where.push_back(g.Below(sizes[i]));
      for (int b = 15; b < 24; b++) if ((1 << b) < sizes[i]) where.push_back((1 << b) - g.Below(2));
      for (int64_t j : where) {
        if (nodes.size() > 1) nodes += ",";
        nodes += "{\"i\":" + std::to_string(i) + ",\"c\":" + std::to_string(j % a + 1) + ",\"p\":\"" + Hex(at(t, i - 1, j / a)) + "\",\"v\":\"" + Hex(at(t, i, j)) + "\"}";
      }
    }
    Emit(J("big").I("a", a).I("n", leaves).S("code", "OK").S("seed", Hex(seed)).Raw("keys", Blocks(keys)).I("arity", t.arity())
             .I("leaves", t.num_leaves()).VI("sizes", sizes).S("root", Hex(at(t, 0, 0))).Raw("nodes", nodes + "]")
             .Raw("sums", Blocks2(sums)).Raw("xors", Blocks2(xors)));
    for (int q = 0; q < 2; q++) {
      int64_t m = g.Below(4) == 0 ? leaves - 1 : g.Below(leaves), path = m, off = 0, on = 0;
      auto s = sums;
      for (int i = t.num_levels() - 2; i >= 0; i--) {
        s[i][path % a] = q ? absl::MakeUint128(g.Next(), g.Next()) : Block(0);
        path /= a;
      }
      auto z = Tree::CreateFromSiblingWiseXOR(a, leaves, m, s, keys);
      if (z.ok()) {
        auto& u = *z.ValueOrDie();
        path = m;
        for (int i = t.num_levels() - 1; i >= 0; i--) {
          for (int64_t j = 0; j < sizes[i]; j++) {
            bool same = at(t, i, j) == at(u, i, j);
            if (j == path) on += same; else off += !same;
          }
          path /= a;
        }
      }
      Emit(J("bigpunct").I("m", m).S("code", Code(z)).I("off", off).I("on", on));
    }
  }
}

int main(int argc, char** argv) {
  Out() = std::fopen(argv[1], "w");
  vrng::Stream g(std::strtoull(argv[2], 0, 10));
  int n = std::atoi(argv[3]);
  string mode = argv[4];
  int64_t max_leaves = std::atoll(argv[5]);
  if (mode == "large") {
    Large(g, n, max_leaves);
    std::fclose(Out());
    return 0;
  }
  for (int it = 0; it < n; it++) {
    bool wide = it > 2 && g.Below(24) == 0;   // very many children
    int a = wide ? (1 << (6 + g.Below(g.Below(4) ? 3 : 7))) + static_cast<int>(g.Below(4)) - 1 : g.Below(4) ? 2 + g.Below(4) : g.Below(10) ? 2 + g.Below(9) : 2 + g.Below(60);
    int64_t leaves;
    switch (g.Below(5)) {
      case 0: leaves = 1 + g.Below(2 * a); break;
      case 1: {  // next to a power of the arity
        int k = 1;
        while (Pow(a, k + 1) <= max_leaves && g.Below(4)) k++;
        leaves = Pow(a, k) + static_cast<int64_t>(g.Below(3)) - 1;
        break;
      }
      case 2: leaves = 1 + g.Below(max_leaves); break;
      default: leaves = 1 + g.Below(40);
    }
    if (wide) leaves = g.Below(3) ? a + static_cast<int64_t>(g.Below(5)) - 2 : 1 + g.Below(2 * a);
    std::vector<Block> keys(a);
    for (auto& k : keys) k = RandBlock(g);
    Block seed = RandBlock(g);
    // Keys that differ little from each other, and roots that differ little from a key.
    if (g.Below(3) == 0) {
      for (int i = 1; i < a; i++) if (g.Below(3)) keys[i] = Near(g, keys[g.Below(2) ? i - 1 : g.Below(i)]);
      if (g.Below(3) == 0) seed = Near(g, keys[g.Below(a)]);
    }
    if (seed == 0) seed = 3;  // zero is what a punctured tree holds on its path
    auto r = Tree::Create(leaves, seed, keys);
    if (!r.ok()) {
      Emit(J("tree").I("a", a).I("n", leaves).S("code", Code(r)));
      continue;
    }
    auto& t = *r.ValueOrDie();
    auto lv = Levels(t);
    auto sums = t.GetSiblingWiseXOR();
    if (mode == "shape") {
      std::vector<Block> gk(t.keys().begin(), t.keys().end());
      Emit(J("tree").I("a", a).I("n", leaves).S("code", "OK").S("seed", Hex(seed)).Raw("keys", Blocks(keys))
               .Raw("levels", Blocks2(lv)).Raw("sums", Blocks2(sums)).I("arity", t.arity()).I("leaves", t.num_leaves())
               .I("L", t.num_levels()).Raw("gkeys", Blocks(gk)));
      // Accesses inside and outside.
      for (int k = 0; k < 8; k++) {
        bool leaf = g.Below(3) == 0;
        int i = leaf ? t.num_levels() - 1 : static_cast<int>(g.Below(t.num_levels() + 4)) - 2;
        int64_t sz = i >= 0 && i < t.num_levels() ? static_cast<int64_t>(lv[i].size()) : 5;
        int64_t x = g.Below(2) ? sz - 2 + static_cast<int64_t>(g.Below(4)) : static_cast<int64_t>(g.Below(sz + 4)) - 2;
        if (g.Below(20) == 0) x = INT64_MIN + static_cast<int64_t>(g.Below(3));
        if (g.Below(20) == 0) x = INT64_MAX - static_cast<int64_t>(g.Below(3));
        auto v = leaf ? t.GetValueAtLeaf(x) : t.GetValueAtNode(i, x);
        bool in = x > -1000 && x < 1000000000;
        Emit(J("get").I("i", i).I("k", in ? x : -1).S("code", Code(v)).S("v", v.ok() ? Hex(v.ValueOrDie()) : ""));
      }
      // Punctured copies.
      int np = leaves <= 12 ? leaves : leaves > 10000 || wide ? 2 : 6;
      for (int k = 0; k < np; k++) {
        int64_t m = leaves <= 12 ? k : g.Below(4) == 0 ? leaves - 1 : g.Below(6) == 0 ? 0 : static_cast<int64_t>(g.Below(leaves));
        std::vector<std::vector<Block>> got[2];
        string code[2];
        bool meta = true;
        for (int v = 0; v < 2; v++) {
          auto s = sums;
          int64_t path = m;
          for (int i = t.num_levels() - 2; i >= 0; i--) {
            s[i][path % a] = v ? absl::MakeUint128(g.Next(), g.Next()) : Block(0);
            path /= a;
          }
          auto q = Tree::CreateFromSiblingWiseXOR(a, leaves, m, s, keys);
          code[v] = Code(q);
          if (q.ok()) {
            auto& u = *q.ValueOrDie();
            got[v] = Levels(u);
            meta = meta && u.arity() == a && u.num_leaves() == leaves && u.num_levels() == t.num_levels();
          }
        }
        Emit(J("punct").I("m", m).VS("code", code).Raw("a", Blocks2(got[0])).Raw("b", Blocks2(got[1])).B("meta", meta));
      }
      // Fresh keys for every tree built from a seed alone.
      if (it % 8 == 0) {
        auto f = Tree::Create(a, leaves, seed);
        std::vector<Block> k;
        if (f.ok()) k.assign(f.ValueOrDie()->keys().begin(), f.ValueOrDie()->keys().end());
        Emit(J("fresh").I("a", a).S("code", Code(f)).Raw("keys", Blocks(k)).Raw("levels", f.ok() ? Blocks2(Levels(*f.ValueOrDie())) : "[]")
                 .S("seed", Hex(seed)).I("n", leaves));
      }
      continue;
    }
    // Malformed arguments: exactly one thing (or several) is wrong.
    static const int64_t kOdd[] = {0, -1, -2, -1000, INT64_MIN, INT64_MIN + 1};
    for (int k = 0; k < 6; k++) {
      int64_t bn = leaves;
      int ba = a;
      auto kk = keys;
      bool inl = g.Below(3) == 0;
      int what = g.Below(2);
      if (inl) {
        if (what == 0) ba = static_cast<int>(g.Below(6)) - 4; else bn = kOdd[g.Below(6)];
        if (g.Below(8) == 0) ba = INT32_MIN;
        auto q = Tree::Create(ba, bn, seed);
        Emit(J("bad").S("f", "CreateRandom").S("code", Code(q)).B("valid", ba >= 2 && bn > 0));
      } else {
        if (what == 0) kk.resize(g.Below(2)); else bn = kOdd[g.Below(6)];
        auto q = Tree::Create(bn, seed, kk);
        Emit(J("bad").S("f", "Create").S("code", Code(q)).B("valid", kk.size() >= 2 && bn > 0));
      }
    }
    for (int k = 0; k < 14; k++) {
      int ba = a;
      int64_t bn = leaves, m = g.Below(leaves);
      // Exact-size copies, so that any read outside is seen.
      auto s = sums;
      auto kk = keys;
      string what;
      auto one = [&](int w) {
        switch (w) {
          case 0: what += "arity "; ba = static_cast<int>(g.Below(5)) - 3; break;
          case 1: what += "leaves "; bn = kOdd[g.Below(6)]; break;
          case 2: what += "missing "; m = g.Below(2) ? leaves + static_cast<int64_t>(g.Below(3)) : g.Below(2) ? INT64_MAX : kOdd[1 + g.Below(5)]; break;
          case 3: what += "keys "; { size_t z = g.Below(a + 3); if (z == static_cast<size_t>(a)) z++; kk.resize(z); kk.shrink_to_fit(); } break;
          case 4: if (s.empty()) { what += "levels "; s.emplace_back(a, 0); break; }
            what += "width "; { auto& w = s[g.Below(s.size())]; size_t z = g.Below(a + 3); if (z == static_cast<size_t>(a)) z++; w.resize(z); w.shrink_to_fit(); } break;
          case 5: what += "levels "; if (g.Below(2) && !s.empty()) { s.resize(g.Below(s.size())); s.shrink_to_fit(); }
            else { int add = 1 + g.Below(3); for (int i = 0; i < add; i++) s.emplace_back(a, 0); } break;
        }
      };
      one(g.Below(6));
      if (g.Below(5) == 0) one(g.Below(6));
      auto q = Tree::CreateFromSiblingWiseXOR(ba, bn, m, s, kk);
      bool uniform = true;
      for (auto& x : s) uniform = uniform && static_cast<int>(x.size()) == ba;
      bool valid = ba >= 2 && bn > 0 && m >= 0 && m < bn && static_cast<int>(kk.size()) == ba && uniform && s.size() == sums.size() && ba == a && bn == leaves;
      Emit(J("bad").S("f", "CreateFromSiblingWiseXOR").S("what", what).S("code", Code(q)).B("valid", valid).I("a", ba)
               .I("n", bn > 0 && bn < 1000000 ? bn : -1).I("levels", s.size()));
    }
  }
  std::fclose(Out());
}
