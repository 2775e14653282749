// Scalar helpers: h_scalar OUT seed n codec|can|fill
#include <condition_variable>
#include <cstring>
#include <mutex>
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "vh.h"
using namespace vh;
using distributed_vector_ole::ScalarHelper;

// Worker threads that execute one job at a time, each with its own NTL state.
class Worker {
 public:
  Worker() : t_([this] { Loop(); }) {}
  ~Worker() { Do(nullptr); t_.join(); }
  void Do(std::function<void()> f) {
    std::unique_lock<std::mutex> l(m_);
    job_ = f; stop_ = !f; has_ = true;
    c_.notify_all();
    c_.wait(l, [this] { return !has_; });
  }
 private:
  void Loop() {
    std::unique_lock<std::mutex> l(m_);
    for (;;) {
      c_.wait(l, [this] { return has_; });
      if (job_) job_();
      has_ = false;
      c_.notify_all();
      if (stop_) return;
    }
  }
  std::mutex m_;
  std::condition_variable c_;
  std::function<void()> job_;
  bool has_ = false, stop_ = false;
  std::thread t_;
};

static string RandMod(vrng::Stream& g, int maxbits) {
  NTL::ZZ m;
  for (;;) {
    int b = 1 + g.Below(maxbits);
    if (g.Below(3) == 0) b = std::min<int>(maxbits, 8 * (1 + g.Below((maxbits + 7) / 8)));
    switch (g.Below(6)) {
      case 5: m = NTL::power2_ZZ(b) - NTL::power2_ZZ(g.Below(b)); break;
      case 0: m = NTL::power2_ZZ(b); break;
      case 1: m = NTL::power2_ZZ(b) + 1 + static_cast<long>(g.Below(40)); break;
      case 2: m = NTL::power2_ZZ(b) - 1 - static_cast<long>(g.Below(40)); break;
      default: m = NTL::power2_ZZ(b);
        for (int i = 0; i < b; i++) if (g.Next() & 1) m += NTL::power2_ZZ(i);
    }
    if (m > 1 && NTL::NumBits(m) <= maxbits) return Hex(m);
  }
}

template <typename T> void CodecOps(int th, vrng::Stream& g) {
  using H = ScalarHelper<T>;
  string ty = TT<T>::Name();
  auto J0 = [&](const char* ev) { J j(ev); j.I("th", th).S("ty", ty); return j; };
  switch (g.Below(6)) {
    case 0: Emit(J0("size").I("v", H::SizeOf())); break;
    case 1: case 2: {
      T x = RandElem<T>(g);
      u128 w = H::ToUint128(x);
      Emit(J0("enc").S("x", TT<T>::H(x)).S("r", Hex(w)).S("back", TT<T>::H(H::FromUint128(w))));
      break;
    }
    case 3: {
      u128 w = absl::MakeUint128(g.Next(), g.Next());
      if (g.Below(3) == 0) w >>= static_cast<int>(g.Below(128));
      if (g.Below(4) == 0) w = ~w;
      Emit(J0("dec").S("w", Hex(w)).S("r", TT<T>::H(H::FromUint128(w))));
      break;
    }
    case 4: {
      T x = RandElem<T>(g);
      std::vector<int> b;
      for (int k = 0; k < 8 * H::SizeOf(); k++) b.push_back(H::GetBit(x, k) ? 1 : 0);
      Emit(J0("bits").S("x", TT<T>::H(x)).VI("b", b));
      break;
    }
    default: {
      std::vector<string> p;
      int n = 8 * H::SizeOf();
      if (ty == "zz_p") n = std::min(n, 63);  // NTL's own representation ends there
      for (int k = 0; k < n; k++) p.push_back(TT<T>::H(H::SetBit(k)));
      Emit(J0("pow2s").VS("p", p));
    }
  }
}

template <typename T> void CanOps(int th, vrng::Stream& g) {
  int b = g.Below(3) == 0 ? 1 + g.Below(128) : (g.Below(2) ? 128 : 8 * (1 + g.Below(16)));
  int sec4 = 4 * static_cast<int>(g.Below(90)) + (g.Below(2) ? static_cast<int>(g.Below(4)) : 0);
  if (TT<T>::kModular && g.Below(3)) {
    // Aim at the edge: the security this modulus just provides.
    NTL::ZZ m = UnHexZZ(TT<T>::Modulus()), r = NTL::power2_ZZ(b) % m;
    if (r > 0) sec4 = std::max<long>(0, 4 * (b - static_cast<long>(NTL::NumBits(r))) + static_cast<long>(g.Below(9)) - 4);
  }
  bool v = ScalarHelper<T>::CanBeHashedInto(sec4 / 4.0, b);
  Emit(J("can").I("th", th).S("ty", TT<T>::Name()).I("sec4", sec4).I("b", b).B("r", v));
}

// Positions of an array that are not filled with whole words: bits that keep their
// old value in all of 128 fillings.
template <typename T> void ThinOp(int th, vrng::Stream& g) {
  int64_t len = g.Below(3) ? g.Below(70) : g.Below(2) ? g.Below(3000) : (int64_t(1) << (8 + g.Below(12))) / sizeof(T) + static_cast<int64_t>(g.Below(9)) - 4;
  len = std::max<int64_t>(len, 1);
  const size_t z = len * sizeof(T);
  std::vector<uint8_t> raw(z), ors(z, 0), ands(z, 255);
  T* p = reinterpret_cast<T*>(raw.data());
  for (int r = 0; r < 128; r++) {
    std::memset(raw.data(), r & 1 ? 255 : 0, z);
    ScalarHelper<T>::Randomize(absl::MakeSpan(p, len));
    for (size_t i = 0; i < z; i++) (r & 1 ? ands : ors)[i] = r & 1 ? ands[i] & raw[i] : ors[i] | raw[i];
  }
  std::vector<int64_t> thin;
  for (size_t i = 0; i < z && thin.size() < 20; i++) if (ors[i] != 255 || ands[i] != 0) thin.push_back(i / sizeof(T));
  Emit(J("thin").I("th", th).S("ty", TT<T>::Name()).I("n", len).VI("thin", thin));
}
template <typename T> void Thin(int th, vrng::Stream& g, std::true_type) {}
template <typename T> void Thin(int th, vrng::Stream& g, std::false_type) { ThinOp<T>(th, g); }

template <typename T> void FillOps(int th, vrng::Stream& g) {
  if (g.Below(20) == 0) return Thin<T>(th, g, std::integral_constant<bool, TT<T>::kModular>());
  using H = ScalarHelper<T>;
  string ty = TT<T>::Name();
  if (g.Below(5) == 0) {
    NTL::ZZ m = UnHexZZ(TT<T>::Modulus());
    int n = NTL::NumBits(m - 1) <= 8 ? 48 * NTL::to_int(m) : 100;
    std::vector<T> v(n, TT<T>::From(0));
    H::Randomize(absl::MakeSpan(v));
    Emit(J("cover").I("th", th).S("ty", ty).VS("v", HexVec(v)));
    return;
  }
  if (g.Below(25) == 0) {      // a long array: windows of it, and how it ends
    int64_t len = TT<T>::kModular ? (1 << (10 + g.Below(7))) : (1 << (12 + g.Below(9)));
    len += static_cast<int64_t>(g.Below(5)) - 2 + (g.Below(2) ? g.Below(len) : 0);
    std::vector<T> v(len, TT<T>::From(0));
    H::Randomize(absl::MakeSpan(v));
    std::vector<string> w;
    std::vector<int64_t> where;
    auto window = [&](int64_t at) {
      at = std::max<int64_t>(0, std::min(at, len - 40));
      where.push_back(at);
      string s = "[";
      for (int64_t i = at; i < at + 40; i++) s += string(i > at ? "," : "") + "\"" + TT<T>::H(v[i]) + "\"";
      w.push_back(s + "]");
    };
    window(0); window(len - 40); window(len / 2); window(g.Below(len)); window(g.Below(len));
    for (int64_t b = 1 << 10; b / static_cast<int64_t>(H::SizeOf()) < len; b *= 2) window(b / H::SizeOf());
    string s = "[";
    for (size_t i = 0; i < w.size(); i++) s += (i ? "," : "") + w[i];
    Emit(J("bulk").I("th", th).S("ty", ty).I("n", len).VI("at", where).Raw("w", s + "]"));
    return;
  }
  int n = g.Below(6) == 0 ? 0 : 1 + g.Below(g.Below(4) == 0 ? 60 : 9);
  if (g.Below(90) == 0) n = (1 << (6 + g.Below(8))) + g.Below(2000);
  int before = g.Below(4), after = g.Below(4);
  // The array ends right at its allocation when after == 0, and a canary follows it.
  std::vector<T> v;
  for (int i = 0; i < before + n + after; i++) v.push_back(TT<T>::From(0xA5));
  auto pre = HexVec(v);
  uint8_t* raw = static_cast<uint8_t*>(std::malloc(sizeof(T) * (n + 2)));
  bool guard = true;
  if (!TT<T>::kModular) {       // raw memory with canary bytes around it
    std::memset(raw, 0x5A, sizeof(T) * (n + 2));
    T* p = reinterpret_cast<T*>(raw + sizeof(T));
    H::Randomize(absl::MakeSpan(p, n));
    for (size_t i = 0; i < sizeof(T); i++) guard = guard && raw[i] == 0x5A && raw[sizeof(T) * (n + 1) + i] == 0x5A;
  }
  std::free(raw);
  H::Randomize(absl::MakeSpan(v).subspan(before, n));
  Emit(J("fill").I("th", th).S("ty", ty).I("off", before).I("n", n).VS("pre", pre).VS("post", HexVec(v)).B("guard", guard));
}

int main(int argc, char** argv) {
  Out() = std::fopen(argv[1], "w");
  uint64_t seed = std::strtoull(argv[2], 0, 10);
  int n = std::atoi(argv[3]);
  string mode = argv[4];
  vrng::Stream g(seed);
  const int W = 4;
  std::vector<std::unique_ptr<Worker>> w;
  for (int i = 0; i < W; i++) {
    w.emplace_back(new Worker);
    w[i]->Do([&, i] { vrng::SetThreadStream(seed * 100 + i); });
  }
  std::vector<int> hz(W, 0), hZ(W, 0);
  std::vector<string> moduli_z, moduli_Z;      // a small pool, so that moduli come back
  for (int i = 0; i < 5; i++) { moduli_z.push_back(RandMod(g, 60)); moduli_Z.push_back(RandMod(g, mode == "codec" ? 128 : 128)); }
  for (int k = 0; k < n; k++) {
    int th = g.Below(W);
    w[th]->Do([&] {
      int kind = g.Below(10);
      bool fresh = g.Below(3) == 0;
      if (!hz[th] || kind == 0) {
        string m = fresh ? RandMod(g, 60) : moduli_z[g.Below(5)];
        if (mode == "fill" && g.Below(2)) m = (const char*[]){"2", "3", "7", "fb", "fd", "101", "10001", "fffffffb"}[g.Below(8)];
        if (UnHexZZ(m) >= NTL::power2_ZZ(60)) m = "fffffffffffffff";
        TT<NTL::zz_p>::SetModulus(m); hz[th] = 1;
        Emit(J("install").I("th", th + 1).S("ty", "zz_p").S("m", m));
      }
      if (!hZ[th] || kind == 1) {
        int mb = mode == "codec" ? (g.Below(8) == 0 ? 200 : 128) : mode == "can" ? (g.Below(4) == 0 ? 140 : 128) : 128;
        string m = fresh ? RandMod(g, mb) : moduli_Z[g.Below(5)];
        if (mode == "fill" && g.Below(2)) m = (const char*[]){"2", "3", "7", "fb", "fd", "101", "10001", "ffffffffffffffffffffffffffffff61"}[g.Below(8)];
        if (mode == "can" && g.Below(6) == 0) m = (const char*[]){"100000000000000000000000000000000", "100000000000000000000000000000001", "200000000000000000000000000000000", "200000000000000000000000000000001", "ffffffffffffffffffffffffffffffff"}[g.Below(5)];
        TT<NTL::ZZ_p>::SetModulus(m); hZ[th] = 1;
        Emit(J("install").I("th", th + 1).S("ty", "ZZ_p").S("m", m));
      }
      int t = g.Below(12);
#define DO(OPS)                                                                     \
      switch (t) {                                                                  \
        case 0: OPS<uint8_t>(th + 1, g); break; case 1: OPS<uint16_t>(th + 1, g); break;  \
        case 2: OPS<uint32_t>(th + 1, g); break; case 3: OPS<uint64_t>(th + 1, g); break; \
        case 4: OPS<u128>(th + 1, g); break; case 5: OPS<gf128>(th + 1, g); break;        \
        case 6: case 7: case 8: OPS<NTL::zz_p>(th + 1, g); break;                   \
        default: OPS<NTL::ZZ_p>(th + 1, g);                                         \
      }
      if (mode == "codec") { DO(CodecOps) }
      else if (mode == "can") {
        switch (t) {
          case 0: CanOps<uint8_t>(th + 1, g); break; case 1: CanOps<u128>(th + 1, g); break;
          case 2: CanOps<uint32_t>(th + 1, g); break; case 3: CanOps<gf128>(th + 1, g); break;
          case 4: case 5: case 6: CanOps<NTL::zz_p>(th + 1, g); break;
          default: CanOps<NTL::ZZ_p>(th + 1, g);
        }
      } else { DO(FillOps) }
    });
  }
  w.clear();
  std::fclose(Out());
}
