// A register machine over gf128: executes random programs through the public
// interface of gf128 and logs, after every instruction, the destination.
#include <sstream>
#include "absl/hash/hash.h"
#include "boost/archive/binary_iarchive.hpp"
#include "boost/archive/binary_oarchive.hpp"
#include "boost/archive/text_iarchive.hpp"
#include "boost/archive/text_oarchive.hpp"
#include "vh.h"
using namespace vh;

static const char* kSpecial[] = {
    "0", "1", "2", "3", "87", "ff", "8000000000000000", "ffffffffffffffff", "10000000000000000",
    "10000000000000001", "80000000000000000000000000000000", "80000000000000000000000000000001",
    "ffffffffffffffff0000000000000000", "ffffffffffffffffffffffffffffffff", "8000000000000000ffffffffffffffff",
    "c0000000000000000000000000000000", "87000000000000000000000000000000", "7fffffffffffffffffffffffffffffff",
    "18000000000000000", "1000000000000000000000000000087", "e1000000000000000000000000000000"};

// Two words that have something to do with each other.
static u128 Related(vrng::Stream& g) {
  static const uint64_t kWords[] = {0, 1, 2, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, 1ull << 32, 0xffffffffull, 0x87, 1ull << 31, 1ull << 57, 1ull << 58};
  uint64_t a = g.Below(2) ? g.Next() : kWords[g.Below(14)], b;
  switch (g.Below(9)) {
    case 0: b = 0 - a; break;
    case 1: b = ~a; break;
    case 2: b = a; break;
    case 3: b = a ^ (1ull << g.Below(64)); break;
    case 4: b = a << 1 | a >> 63; break;
    case 5: b = a << 32 | a >> 32; break;
    case 6: b = a + 1 - 2 * g.Below(2); break;
    case 7: b = __builtin_bswap64(a); break;
    default: b = kWords[g.Below(14)];
  }
  return g.Below(2) ? absl::MakeUint128(a, b) : absl::MakeUint128(b, a);
}
int main(int argc, char** argv) {
  // h_gf OUT seed nprog len mode(arith|repr)
  Out() = std::fopen(argv[1], "w");
  vrng::Stream g(std::strtoull(argv[2], 0, 10));
  vrng::SetThreadStream(std::strtoull(argv[2], 0, 10) + 5);
  int nprog = std::atoi(argv[3]), len = std::atoi(argv[4]);
  string mode = argv[5];
  const int R = 6;
  for (int p = 0; p < nprog; p++) {
    std::vector<gf128> r(R);
    for (int i = 0; i < R; i++) {
      u128 v = g.Below(4) == 0 ? Related(g) : g.Below(3) == 0 ? absl::MakeUint128(g.Next(), g.Next())
                               : UnHex(kSpecial[g.Below(sizeof(kSpecial) / sizeof(*kSpecial))]);
      r[i] = gf128(v);
      Emit(J("load").I("d", i + 1).S("v", Hex(v)).S("r", TT<gf128>::H(r[i])));
    }
    for (int k = 0; k < len; k++) {
      int d = g.Below(R), x = g.Below(R), y = g.Below(R);
      int op = g.Below(mode == "arith" ? 15 : 27);
      if (mode != "arith" && g.Below(3) == 0) op = 4;  // keep the registers moving
      if (op == 14 || g.Below(8) == 0) {   // a new value: structured, or near another register
        u128 o = UnHex(TT<gf128>::H(r[y]));
        u128 v = g.Below(3) ? Related(g) : g.Below(2) ? o ^ (u128(1) << g.Below(128))
                 : absl::MakeUint128(absl::Uint128Low64(o), absl::Uint128High64(o));
        r[x] = gf128(v);
        Emit(J("load").I("d", x + 1).S("v", Hex(v)).S("r", TT<gf128>::H(r[x])));
      }
      J j("op");
      j.I("d", d + 1).I("x", x + 1).I("y", y + 1);
      auto dst = [&](const char* name) { j.S("op", name).S("r", TT<gf128>::H(r[d])); };
      switch (op) {
        case 0: r[d] = r[x] + r[y]; dst("add"); break;
        case 1: r[d] = r[x] - r[y]; dst("sub"); break;
        case 2: r[d] = r[x] * r[y]; dst("mul"); break;
        case 3: r[d] += r[y]; dst("addeq"); break;
        case 4: r[d] *= r[y]; dst("muleq"); break;
        case 5: r[d] -= r[y]; dst("subeq"); break;
        case 6: r[d] = -r[x]; dst("neg"); break;
        case 7: r[d] = r[x].squared(); dst("squared"); break;
        case 8: r[d].square(); dst("square"); break;
        case 9: r[d] *= r[d]; dst("selfmul"); break;
        case 10: r[d] = r[x].inverse(); dst("inv"); break;
        case 11: r[d] = r[x] * r[x].inverse(); dst("unit"); break;
        case 12: r[d] += r[d]; dst("selfadd"); break;
        case 13: r[d] = (r[x] += r[y]) * r[y]; j.S("rx", TT<gf128>::H(r[x])); dst("chain"); break;
        case 14: j.S("op", "cmp").B("eq", r[x] == r[y]).B("ne", r[x] != r[y]).B("zero", r[x].is_zero()); break;
        case 15: {
          auto w = r[x].as_words();
          std::vector<string> ws;
          for (uint64_t v : w) ws.push_back(Hex(u128(v)));
          j.S("op", "words").VS("w", ws);
          break;
        }
        case 16: {
          auto w = r[x].as_words();
          r[d] = gf128(w[1], w[0]);
          dst("fromwords");
          break;
        }
        case 17: {
          uint64_t low = g.Below(2) ? g.Next() : g.Below(4);
          r[d] = gf128(low);
          j.S("low", Hex(u128(low)));
          dst("fromlow");
          break;
        }
        case 18: {
          uint64_t hi = g.Next(), lo = g.Next();
          if (g.Below(3) == 0) hi = 0;
          r[d] = gf128(hi, lo);
          j.S("high", Hex(u128(hi))).S("low", Hex(u128(lo)));
          dst("fromhl");
          break;
        }
        case 19: {  // serialization round trip
          std::stringstream ss;
          bool text = g.Below(2);
          gf128 back(12345);
          if (text) {
            { boost::archive::text_oarchive a(ss); const gf128 c = r[x]; a << c; }
            { boost::archive::text_iarchive a(ss); a >> back; }
          } else {
            { boost::archive::binary_oarchive a(ss); const gf128 c = r[x]; a << c; }
            { boost::archive::binary_iarchive a(ss); a >> back; }
          }
          r[d] = back;
          dst("serial");
          break;
        }
        case 20: {
          bool same = absl::Hash<gf128>()(r[x]) == absl::Hash<gf128>()(gf128(static_cast<u128>(r[x])));
          // collisions among 64 single-bit variants of r[x]
          int coll = 0;
          for (int b = 0; b < 128; b++)
            coll += absl::Hash<gf128>()(r[x]) == absl::Hash<gf128>()(r[x] + gf128(u128(1) << b));
          j.S("op", "hash").B("same", same).I("coll", coll);
          break;
        }
        case 21: {
          std::ostringstream os;
          os << r[x];
          j.S("op", "print").S("s", os.str());
          // decimal rendering by NTL as the reference value
          NTL::ZZ z = UnHexZZ(Hex(static_cast<u128>(r[x])));
          std::ostringstream zs;
          zs << z;
          j.S("want", "gf128(" + zs.str() + ")").S("val", Hex(z));
          break;
        }
        case 22: r[d] = gf128::zero(); dst("zero"); break;
        case 23: r[d] = gf128::one(); dst("one"); break;
        case 24: r[d] = gf128(); dst("default"); break;
        case 25: {
          // randomize() overwrites all 16 bytes with fresh randomness.
          gf128 acc_or(0), first;
          u128 o = 0, n = ~u128(0);
          std::vector<string> vs;
          for (int i = 0; i < 8; i++) {
            gf128 e = (i & 1) ? gf128::random_element() : r[x];
            if (!(i & 1)) e.randomize();
            o |= static_cast<u128>(e);
            n &= static_cast<u128>(e);
            vs.push_back(TT<gf128>::H(e));
          }
          j.S("op", "random").VS("vs", vs);
          r[d] = gf128(o);
          j.S("r", TT<gf128>::H(r[d]));
          break;
        }
        case 26: {
          u128 v = static_cast<u128>(r[x]);
          j.S("op", "tou128").S("v", Hex(v));
          break;
        }
      }
      Emit(j);
    }
  }
  if (mode != "arith") {
    // The advertised generator of the multiplicative group: g^((2^128-1)/q) != 1
    // for each prime factor q of 2^128-1.
    Emit(J("gen").S("g", TT<gf128>::H(gf128::multiplicative_generator)).I("deg", gf128::extension_degree())
             .I("bits", gf128::num_bits).I("mod", gf128::modulus_));
  }
  return 0;
}
