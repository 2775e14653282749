// Vector-OLE: h_vole OUT seed n mode [maxthreads] [scenario]
//   mode hist     random histories of precomputations and runs
//        bad      histories with refused calls on one side in between
//        threads  fresh threads, changing thread counts, other moduli in between
//        prog     histories given by a scenario file
//        free     the same, the parties running each at its own pace
//        entropy  runs that differ in one random byte of one party
//        shipped  histories with the parameters of the library (built without -DSCALED)
// The scalar type is chosen with -DVT=<type>. With -DSCALED the parameter table
// comes from the environment: VOLE_OUT, VOLE_SEED, VOLE_NOISE, VOLE_NZ.
#include <limits>
#include "distributed_vector_ole/distributed_vector_ole.h"
#include "vparty.h"
using namespace vh;
using namespace distributed_vector_ole;
using T = VT;
using Vole = DistributedVectorOLE<T>;
#ifdef DVO_VERIF_EXPANSION_OBSERVER
static const bool kObserved = true;
#else
static const bool kObserved = false;
namespace vh {
struct Expansion {
  int64_t rows = 0, cols = 0;
  std::vector<std::string> su, sv, mu, mv;
  std::vector<std::vector<std::pair<int64_t, std::string>>> code;
  std::vector<int64_t> idx;
  std::vector<std::string> y, ou, ov;
  std::string delta;
};
inline std::vector<Expansion>*& Recorder() { static thread_local std::vector<Expansion>* r = nullptr; return r; }
}
#endif

#ifdef SCALED
static std::vector<int> FromEnv(const char* name) {
  const char* s = std::getenv(name);
  if (!s) { std::fprintf(stderr, "%s not set\n", name); std::exit(3); }
  std::vector<int> r;
  std::istringstream in(s);
  for (int x; in >> x;) r.push_back(x);
  return r;
}
namespace distributed_vector_ole {
const std::vector<int> VOLEParameters::output_size = FromEnv("VOLE_OUT");
const std::vector<int> VOLEParameters::seed_size = FromEnv("VOLE_SEED");
const std::vector<int> VOLEParameters::num_noise_indices = FromEnv("VOLE_NOISE");
const int VOLEParameters::kCodeGeneratorNonzeros = FromEnv("VOLE_NZ")[0];
}
#endif

static vrng::Stream g(1);
static int max_threads = 1;
template <typename C> static std::vector<int> Ints(const C& c) { return std::vector<int>(std::begin(c), std::end(c)); }

static std::vector<string> Moduli() {
  if (TT<T>::Name() == "zz_p") return {"2", "3", "fb", "10001", "7ffffffb", "1fffffffffffff", "fffffffffffffa3"};
  if (TT<T>::Name() == "ZZ_p")
    return {"2", "fb", "100", "10001", "fffffffb", "1fffffffffffffff", "10000000000000000", "1000000000000000d", "100000000000000000000000000000000"};
  return {};
}

struct Inst {
  int sec4 = 160;
  int prov = 0;          // the sender
  int64_t batch = 0;     // 0: not yet precomputed
  bool have[2] = {false, false};
  std::unique_ptr<Vole> v[2];
};
static string MakeInst(Inst& in, int p, mpc_utils::comm_channel* ch) {
  auto r = in.sec4 == 160 ? Vole::Create(ch) : Vole::Create(ch, in.sec4 / 4.0);
  if (!r.ok()) return Code(r);
  in.v[p] = std::move(r.ValueOrDie());
  return "OK";
}
struct Env {                 // how the call is made
  bool fresh[2] = {false, false};
  int threads[2] = {1, 1}, region[2] = {0, 0};
  bool other[2] = {false, false};   // another modulus was used by the party's workers in between
};
static Env RandEnv(bool wild) {
  Env e;
  for (int p = 0; p < 2; p++) {
    e.threads[p] = 1 + g.Below(max_threads);
    if (wild) { e.fresh[p] = g.Below(3) == 0; e.other[p] = g.Below(3) == 0; e.region[p] = g.Below(4) ? 0 : g.Below(4); }
  }
  return e;
}
static string In(const Env& e, int p, const string& modulus, std::vector<Expansion>* rec, uint64_t seed, const std::function<string()>& f) {
  string r;
  auto body = [&] {
    Recorder() = rec;
    omp_set_num_threads(e.threads[p]);
    vh::In(e.region[p], [&] { r = Session::Guard(f); });
    Recorder() = nullptr;
  };
  if (e.fresh[p]) {
    std::thread t([&] {
      vrng::SetThreadStream(seed);
      if (!modulus.empty()) TT<T>::SetModulus(modulus);
      body();
    });
    t.join();
  } else {
    if (e.other[p] && !modulus.empty()) {
      omp_set_num_threads(e.threads[p]);
      TT<T>::SetModulus("65");
      NTLContext<T> c;
      c.save();
#pragma omp parallel
      { c.restore(); }
      TT<T>::SetModulus(modulus);
    }
    body();
  }
  return r;
}

static string Join(const Expansion& s, const Expansion& r) {
  J j;
  j.I("rows", s.rows).I("cols", s.cols).VS("su", s.su).VS("sv", s.sv).VS("sw", r.su).VS("mu", s.mu).VS("mv", s.mv).VS("mw", r.mu);
  j.VI("idx", s.idx).VS("y", s.y).S("delta", r.delta);
  bool same = s.rows == r.rows && s.cols == r.cols && s.code == r.code;
  bool full = s.cols <= 900;
  j.B("samecode", same).B("full", full);
  j.VS("ou", full ? s.ou : std::vector<string>()).VS("ov", full ? s.ov : std::vector<string>()).VS("ow", full ? r.ou : std::vector<string>());
  string code = "[";
  if (full)
    for (size_t c = 0; c < s.code.size(); c++) {
      code += c ? ",[" : "[";
      for (size_t k = 0; k < s.code[c].size(); k++)
        code += (k ? ",[" : "[") + std::to_string(s.code[c][k].first) + ",\"" + s.code[c][k].second + "\"]";
      code += "]";
    }
  size_t most = 0;
  for (auto& c : s.code) most = std::max(most, c.size());
  j.Raw("code", code + "]").I("most", most);
  return j.str();
}
static string Joined(const std::vector<Expansion>& s, const std::vector<Expansion>& r) {
  string x = "[";
  for (size_t i = 0; i < s.size() && i < r.size(); i++) x += (i ? "," : "") + Join(s[i], r[i]);
  return x + "]";
}
static int Cap(int64_t x) { return static_cast<int>(std::max<int64_t>(-(1 << 29), std::min<int64_t>(x, 1 << 29))); }
static std::vector<string> Vec(const Vector<T>& v) { std::vector<string> r; for (int64_t i = 0; i < v.size(); i++) { T x = v[i]; r.push_back(TT<T>::H(x)); } return r; }

// Masked vectors that went over the channel: everything the sender sent in this call
// that is a vector of elements (for the types where equality tells).
static string Sent(Session& s, int p, size_t from) {
  std::vector<string> m;
  for (size_t i = from; i < s.hub->events.size(); i++) {
    auto& e = s.hub->events[i];
    if (e.op != "send" || e.party != p) continue;
    std::vector<string> el;
    if (DecodeElems<T>(e.tag, e.a, &el)) { J j; j.VS("el", el); m.push_back(j.str()); }
  }
  string r = "[";
  for (size_t i = 0; i < m.size(); i++) r += (i ? "," : "") + m[i];
  return r + "]";
}

struct Hist {
  Session s;
  string modulus;
  std::deque<Inst> insts;
  bool sent = true;
  bool may_refuse = false;   // precomputations may be refused by both parties
  bool wild = false;
  std::vector<int> most;   // largest batch of each level
  explicit Hist(bool measured, uint64_t seed, const string& m) : s(measured, seed), modulus(m) {
    s.SetModulus<T>(m);
    s.hub->record = true;
    Emit(J("session").B("measured", measured).Raw("R", RingJson<T>()).S("ty", TT<T>::Name()).B("observed", kObserved));
  }
  std::vector<string> Call(const Env& e, int sender, std::vector<Expansion> rec[2], const std::function<string(int)>& snd, const std::function<string(int)>& rcv) {
    uint64_t sd = g.Next() % 1000000;
    Session::Fn f = [&](int p) { return In(e, p, modulus, &rec[p == sender ? 0 : 1], sd * 2 + p, [&] { return (p == sender ? snd : rcv)(p); }); };
    auto c = s.Both(f, f);
    if (sender == 1) std::swap(c[0], c[1]);
    return c;
  }
  J Common(const char* ev, int i, const std::vector<string>& codes) {
    J j(ev);
    j.I("inst", i).Raw("R", RingJson<T>()).S("ty", TT<T>::Name()).VS("codes", codes).I("left", s.left);
    return j;
  }
  void Tail(J& j, std::vector<Expansion> rec[2], size_t from, int sender) {
    j.Raw("exps", Joined(rec[0], rec[1])).B("paired", rec[0].size() == rec[1].size());
    j.Raw("sent", sent ? Sent(s, sender, from) : "[]");
    s.hub->events.clear();
    Emit(j);
  }
  int New(int sec4, const Env& e) {
    insts.emplace_back();
    Inst& in = insts.back();
    in.sec4 = sec4;
    in.prov = g.Below(2);
    std::vector<Expansion> rec[2];
    auto f = [&](int p) { return MakeInst(in, p, s.ch[p].get()); };
    auto codes = Call(e, 0, rec, f, f);
    // Numbers of buckets of an instance with the same security.
    Session hs(false, 5);
    std::unique_ptr<MPFSSKnownIndices> mp[2];
    hs.Both([&](int p) { mp[p] = std::move(MPFSSKnownIndices::Create(hs.ch[p].get(), sec4 / 4.0 + std::log2(3)).ValueOrDie()); return "OK"; },
            [&](int p) { mp[p] = std::move(MPFSSKnownIndices::Create(hs.ch[p].get(), sec4 / 4.0 + std::log2(3)).ValueOrDie()); return "OK"; });
    std::vector<int> nb;
    for (int k : Ints(VOLEParameters::num_noise_indices)) nb.push_back(mp[0]->NumBuckets(k).ValueOrDie());
    auto outs = Ints(VOLEParameters::output_size), seeds = Ints(VOLEParameters::seed_size);
    most.clear();
    for (size_t k = 0; k < nb.size(); k++) most.push_back(outs[k] - seeds[k] - nb[k]);
    J j = Common("new", insts.size() - 1, codes);
    j.I("sec4", sec4).VI("out", Ints(VOLEParameters::output_size)).VI("seed", Ints(VOLEParameters::seed_size)).VI("noise", Ints(VOLEParameters::num_noise_indices));
    j.I("nz", VOLEParameters::kCodeGeneratorNonzeros).VI("nb", nb);
#ifdef SCALED
    j.B("shipped", false);
#else
    j.B("shipped", true);
#endif
    s.hub->events.clear();
    Emit(j);
    return insts.size() - 1;
  }
  // A precomputation or run, for each party; role assignment `a` exchanges the roles.
  struct Op {
    char kind = 'P';
    int inst = 0, prov = 0;
    int64_t x = 0;
    bool given = false;
    T delta{};
    Env e;
    uint64_t seed = 0;
    std::vector<Expansion> rec[2];
    std::vector<string> codes = {"", ""};
    typename Vole::SenderResult sr;
    typename Vole::ReceiverResult rr;
    string modulus;
    // What party p does.
    string Do(std::deque<Inst>& insts, int p) {
      Vole& v = *insts[inst].v[p];
      bool snd = p == prov;
      auto call = [&]() -> string {
        if (kind == 'P') {
          if (snd) return Code(v.PrecomputeSender(x));
          return Code(given ? v.PrecomputeReceiver(x, delta) : v.PrecomputeReceiver(x));
        }
        if (snd) { auto r = v.RunSender(x); if (r.ok()) sr = r.ValueOrDie(); return Code(r); }
        auto r = v.RunReceiver(x);
        if (r.ok()) rr = r.ValueOrDie();
        return Code(r);
      };
      return codes[snd ? 0 : 1] = In(e, p, modulus, &rec[snd ? 0 : 1], seed * 2 + p, call);
    }
    bool ok() const { return codes[0] == "OK" && codes[1] == "OK"; }
  };
  Op Make(char kind, int i, int a, int64_t x, bool given, const T& delta, const Env& e) {
    Op o;
    o.kind = kind; o.inst = i; o.prov = insts[i].prov ^ a; o.x = x; o.given = given; o.delta = delta; o.e = e;
    o.modulus = modulus;
    o.seed = g.Next() % 1000000;
    return o;
  }
  void Tell(Op& o, size_t from) {
    bool refused = may_refuse && o.kind == 'P' && o.codes[0] != "OK";
    J j = Common(refused ? "prefail" : o.kind == 'P' ? "pre" : "run", o.inst, o.codes);
    j.I("prov", o.prov);
    if (o.kind == 'P') {
      j.I("batch", Cap(o.x)).B("given", o.given).S("delta", o.given ? TT<T>::H(o.delta) : "0");
    } else {
      j.I("size", Cap(o.x)).VS("u", Vec(o.sr.u)).VS("v", Vec(o.sr.v)).VS("w", Vec(o.rr.w));
      j.S("delta", o.codes[1] == "OK" ? TT<T>::H(o.rr.delta) : "0");
    }
    Tail(j, o.rec, from, o.prov);
    if (refused) insts[o.inst].batch = 0;
    else if (o.kind == 'P' || !insts[o.inst].batch) insts[o.inst].batch = o.x;
  }
  bool Step(Op o) {
    size_t from = s.hub->events.size();
    Session::Fn f = [&](int p) { return o.Do(insts, p); };
    s.Both(f, f);
    Tell(o, from);
    return o.ok();
  }
  bool Pre(int i, int64_t batch, bool given, const T& delta, const Env& e, int a = 0) { return Step(Make('P', i, a, batch, given, delta, e)); }
  bool Run(int i, int64_t size, const Env& e, int a = 0) { return Step(Make('R', i, a, size, false, T(), e)); }
  // All of them, each party at its own pace.
  void Free(std::vector<Op>& ops) {
    Session::Fn f = [&](int p) {
      for (auto& o : ops) if (o.Do(insts, p) != "OK") return "stopped";
      return "OK";
    };
    s.Both(f, f);
    uint64_t left = s.left;
    sent = false;
    for (auto& o : ops) {
      s.left = &o == &ops.back() ? left : 0;
      Tell(o, 0);
      if (!o.ok()) break;
    }
  }
  // A call that must be refused, made by one party alone.
  void Bad(int i) {
    Inst& in = insts[i];
    int p = g.Below(2);
    static const int64_t lo = std::numeric_limits<int64_t>::min();
    int64_t neg[] = {-1, -2, -5, -100, lo, lo + 1, -(int64_t(1) << 32)};
    int64_t k = neg[g.Below(7)];
    string what, code;
    switch (g.Below(8)) {
      case 0: what = "pre-sender"; k = g.Below(2) ? 0 : k; code = s.Alone(p, [&] { return Code(in.v[p]->PrecomputeSender(k)); }); break;
      case 1: what = "pre-receiver"; k = g.Below(2) ? 0 : k; code = s.Alone(p, [&] { return Code(in.v[p]->PrecomputeReceiver(k, RandElem<T>(g))); }); break;
      case 2: what = "pre-receiver"; k = g.Below(2) ? 0 : k; code = s.Alone(p, [&] { return Code(in.v[p]->PrecomputeReceiver(k)); }); break;
      case 3: case 6: what = "run-sender"; code = s.Alone(p, [&] { return Code(in.v[p]->RunSender(k)); }); break;
      case 4: case 7: what = "run-receiver"; code = s.Alone(p, [&] { return Code(in.v[p]->RunReceiver(k)); }); break;
      default: {
        bool null = g.Below(2);
        double sec = g.Below(2) ? -1 : -0.25;
        if (g.Below(4) == 0) null = true; else if (null) sec = 40;
        what = null ? "no-channel" : "negative-security";
        code = s.Alone(p, [&] { return Code(Vole::Create(null ? nullptr : s.ch[p].get(), sec)); });
      }
    }
    s.hub->events.clear();
    Emit(J("refuse").S("what", what).I("inst", i).I("k", Cap(k)).S("code", code).I("moved", s.moved).I("left", s.left));
  }
};
static int64_t MaxOut() { return Ints(VOLEParameters::output_size).back(); }
static int64_t RandBatch() {
  int L = Ints(VOLEParameters::output_size).size();
  switch (g.Below(8)) {
    case 0: return 1 + g.Below(3);
    case 1: return g.Below(3) ? MaxOut() + g.Below(3) : std::numeric_limits<int64_t>::max() - g.Below(3) * g.Below(200);
    case 2: case 3: { int i = g.Below(L); return std::max<int64_t>(1, VOLEParameters::output_size[i] - VOLEParameters::seed_size[i] - 70 + g.Below(40)); }
    default: return 1 + g.Below(std::max<int64_t>(2, MaxOut() / 2));
  }
}
static int64_t RandSize(const Inst& in) {
  int64_t b = std::min<int64_t>(in.batch ? in.batch : 40, 300);
  switch (g.Below(8)) {
    case 0: return in.batch ? g.Below(2) : 1;
    case 1: return b;
    case 2: return std::max<int64_t>(1, b - 1 + g.Below(3));
    case 3: return 1 + g.Below(3 * b + 4);
    default: return 1 + g.Below(b + 3);
  }
}
static string PickModulus() { auto m = Moduli(); return m.empty() ? "" : m[g.Below(m.size())]; }

static void Histories(int n, bool bad, bool wild) {
  while (n > 0) {
    Hist h(g.Below(2), g.Next() % 100000, PickModulus());
    h.wild = wild;
    h.sent = !wild;
    static const int secs[] = {160, 160, 150, 170, 100};
    h.New(secs[g.Below(5)], RandEnv(wild));
    if (bad && g.Below(4)) { n--; if (g.Below(2) ? !h.Pre(0, RandBatch(), g.Below(2), RandElem<T>(g), RandEnv(wild)) : !h.Run(0, RandSize(h.insts[0]), RandEnv(wild))) continue; }
    for (int k = 3 + g.Below(bad ? 16 : 8); k > 0 && n > 0; k--) {
      if (h.insts.size() < 3 && g.Below(8) == 0) h.New(secs[g.Below(5)], RandEnv(wild));
      int i = g.Below(h.insts.size());
      Env e = RandEnv(wild);
      if (bad && g.Below(5) < 3) { h.Bad(i); continue; }
      n--;
      bool ok = g.Below(10) < 3 ? h.Pre(i, RandBatch(), g.Below(3) > 0, RandElem<T>(g), e) : h.Run(i, RandSize(h.insts[i]), e);
      if (!ok) break;
    }
  }
}
// Histories from a scenario file: V measured n {N | P inst roles batch given | R inst roles size | B inst}
// A number may be written M<level>, the largest batch of that level, with or without a + (one more).
// Freely: precomputations and runs are made without the parties waiting for each other.
static int64_t Amount(const string& t, const std::vector<int>& most) {
  if (t[0] != 'M') return std::stoll(t);
  size_t l = std::min<size_t>(t[1] - '0', most.size());
  return most[l - 1] + (t.back() == '+');
}
static void Given(const string& path, bool freely) {
  Scn sc(path);
  string t;
  while (sc.Next(t)) {
    bool measured = sc.Int();
    int n = sc.Int();
    Hist h(measured, g.Next() % 100000, PickModulus());
    bool dead = false;
    std::vector<typename Hist::Op> ops;
    for (int k = 0; k < n; k++) {
      string c = sc.Str();
      int i = c == "N" ? 0 : sc.Int();
      int a = c == "P" || c == "R" ? sc.Int() : 0;
      int64_t x = c == "P" || c == "R" ? Amount(sc.Str(), h.most) : 0;
      int gv = c == "P" ? sc.Int() : 0;
      if (dead) continue;
      Env e = RandEnv(false);
      if (c == "N") h.New(160, e);
      else if (c == "B") { if (!freely) h.Bad(i); }
      else {
        auto o = h.Make(c[0], i, a, x, gv, RandElem<T>(g), e);
        if (freely) ops.push_back(o); else dead = !h.Step(o);
      }
    }
    if (freely && !ops.empty()) h.Free(ops);
  }
}
static void Shipped(int n) {
  for (int k = 0; k < n; k++) {
    Hist h(g.Below(2), g.Next() % 100000, PickModulus());
    h.sent = false;
    int i = h.New(160, RandEnv(true));
    if (g.Below(2)) h.Pre(i, 1 + g.Below(k % 2 ? 2000 : 7000), g.Below(2), RandElem<T>(g), RandEnv(true));
    for (int q = 1 + g.Below(2); q > 0; q--) if (!h.Run(i, 1 + g.Below(2500), RandEnv(true))) break;
  }
}

// Precomputations that both parties refuse: integers too long for the products, or
// more security than modulus or hash functions allow for so large a batch.
static void Refused(int n) {
  while (n-- > 0) {
    string m;
    bool wide = TT<T>::Name() == "ZZ_p" && g.Below(2);
    int64_t mid = std::max<int64_t>(70, MaxOut() / 8) + g.Below(MaxOut());   // the size at which it starts
    int sec4;
    if (TT<T>::kModular && !wide) {
      // The random elements of the code matrix are reduced 128-bit numbers.
      double rem = 0;
      do {
        int b = TT<T>::Name() == "ZZ_p" ? 62 + g.Below(24) : 58;
        NTL::ZZ p = NTL::power2_ZZ(b) + NTL::conv<NTL::ZZ>(static_cast<long>(g.Next() >> 9) | 1);
        if (b == 58) p = NTL::power2_ZZ(58) + NTL::conv<NTL::ZZ>(static_cast<long>(g.Next() >> 8) | 1);
        m = Hex(p);
        rem = NTL::conv<double>(NTL::power2_ZZ(128) % p);
      } while (rem < 1);
      sec4 = static_cast<int>(4 * (128 - std::log2(rem) - std::log2(10.0 * mid) - std::log2(3)));
    } else {
      m = wide ? PickModulus() : "";
      sec4 = wide ? 160 : 4 * 100 + g.Below(28);
    }
    if (sec4 < 0) continue;
    Hist h(g.Below(2), g.Next() % 100000, m);
    h.may_refuse = true;
    int i = h.New(sec4, RandEnv(false));
    bool ok = h.insts[i].v[0] && h.insts[i].v[1];
    for (int k = 5; ok && k > 0; k--) {
      bool refuse = g.Below(2);
      if (refuse && wide) { h.modulus = "1" + string(32 + g.Below(9), '0') + "51"; h.s.template SetModulus<T>(h.modulus); }
      if (refuse || g.Below(2)) ok = h.Pre(i, refuse && !wide ? MaxOut() - g.Below(MaxOut() / 2) : 1 + g.Below(4), g.Below(2), RandElem<T>(g), RandEnv(false));
      if (refuse && wide) { h.modulus = m; h.s.template SetModulus<T>(m); }
      if (!ok && refuse) ok = true;
      if (ok && g.Below(4)) ok = h.Run(i, 1 + g.Below(12), RandEnv(false));
    }
  }
}
// Which random bytes decide what: one precomputation and one run, over and over.
struct Once {
  std::vector<string> codes;
  std::vector<Expansion> rec[2];
  uint64_t pos[2] = {0, 0};
  Once(uint64_t seed, bool measured, const string& m, int sec4, int64_t batch, int party, int64_t flip) {
    Session s(measured, seed);
    s.SetModulus<T>(m);
    if (flip >= 0) s.party[party]->Do([&] { vrng::SetFlip(flip); });
    std::unique_ptr<Vole> v[2];
    auto all = [&](int p) -> string {
      Recorder() = &rec[p];
      auto r = sec4 == 160 ? Vole::Create(s.ch[p].get()) : Vole::Create(s.ch[p].get(), sec4 / 4.0);
      if (!r.ok()) { Recorder() = nullptr; return Code(r); }
      v[p] = std::move(r.ValueOrDie());
      string c = p == 0 ? Code(v[p]->PrecomputeSender(batch)) : Code(v[p]->PrecomputeReceiver(batch));
      if (c == "OK") c = p == 0 ? Code(v[p]->RunSender(1)) : Code(v[p]->RunReceiver(1));
      Recorder() = nullptr;
      return c;
    };
    codes = s.Both([&](int p) { return Session::Guard([&] { return all(p); }); }, [&](int p) { return Session::Guard([&] { return all(p); }); });
    for (int p = 0; p < 2; p++) s.party[p]->Do([&] { pos[p] = vrng::ThreadPos(); vrng::SetFlip(-1); });
  }
};
static void Entropy(int n) {
  for (int it = 0; it < n; it++) {
    string m = PickModulus();
    bool measured = g.Below(2);
    uint64_t seed = g.Next() % 100000;
    int sec4 = g.Below(2) ? 160 : 100;
    int64_t batch = 1 + g.Below(20);
    TT<T>::SetModulus(m.empty() ? "7" : m);
    Once a(seed, measured, m, sec4, batch, 0, -1);
    int64_t code = 0, idx = 0, y = 0, delta = 0, su = 0;
    bool seen = !a.rec[0].empty() && !a.rec[1].empty();
    auto set = [](const Expansion& e) { auto v = e.idx; std::sort(v.begin(), v.end()); return v; };
    int64_t draws = a.pos[0] + a.pos[1];
    if (seen) for (int p = 0; p < 2; p++) for (uint64_t at = 0; at < a.pos[p]; at++) {
      Once b(seed, measured, m, sec4, batch, p, at);
      if (b.rec[0].empty() || b.rec[1].empty()) continue;
      code += b.rec[0][0].code != a.rec[0][0].code;
      idx += set(b.rec[0][0]) != set(a.rec[0][0]);
      y += b.rec[0][0].y != a.rec[0][0].y;
      su += b.rec[0][0].su != a.rec[0][0].su;
      delta += b.rec[1][0].delta != a.rec[1][0].delta;
    }
    Emit(J("entropy").Raw("R", RingJson<T>()).S("ty", TT<T>::Name()).I("rows", seen ? a.rec[0][0].rows : 0).I("k", seen ? a.rec[0][0].idx.size() : 0).VS("codes", a.codes).B("seen", seen).I("draws", draws).I("code", code).I("idx", idx).I("y", y).I("su", su).I("delta", delta));
  }
}

int main(int argc, char** argv) {
  Out() = std::fopen(argv[1], "w");
  g = vrng::Stream(std::strtoull(argv[2], 0, 10));
  int n = std::atoi(argv[3]);
  string mode = argv[4];
  if (argc > 5) max_threads = std::max(1, std::atoi(argv[5]));
  TT<T>::SetModulus("7");
  if (mode == "prog" || mode == "free") Given(argv[6], mode == "free");
  else if (mode == "shipped") Shipped(n);
  else if (mode == "entropy") Entropy(n);
  else if (mode == "refused") Refused(n);
  else Histories(n, mode == "bad", mode == "threads");
  return 0;
}
