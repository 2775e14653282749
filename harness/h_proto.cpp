// The protocols: h_proto OUT seed n mode [maxthreads] [scenario]
//   mode rot|spfss|gilboa|mpfss|mix   programs in lockstep (last argument tx: with transcripts)
//        view                          pairs of executions that differ in secrets
//        bad                           malformed arguments, on one party alone
//        bias                          all-but-one OT senders on the verge of their error bound
//        entropy                       executions that differ in one random byte of the provider
//        threads                       executions that differ in the numbers of threads
//        prog                          programs given by a scenario file, freely running
// The scalar type is chosen with -DVT=<type>.
#include <set>
#include <deque>
#include "distributed_vector_ole/all_but_one_random_ot.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#include "distributed_vector_ole/spfss_known_index.h"
#include "vparty.h"
using namespace vh;
using namespace distributed_vector_ole;
using T = VT;
using absl::MakeConstSpan;
using absl::MakeSpan;
using mpc_utils::Status;

static vrng::Stream g(1);
static int max_threads = 1;
static bool with_transcript = true;
static bool many_ok = false;
static bool large = false;      // few, large calls

static std::vector<string> Moduli() {
  if (TT<T>::Name() == "zz_p")
    return {"2", "3", "5", "fb", "100", "101", "fff1", "10000", "10001", "ffffffb", "1fffffffffffff", "7ffffffffffffe7", "800000000000000"};
  if (TT<T>::Name() == "ZZ_p")
    return {"2", "3", "7", "fb", "100", "101", "fff1", "10001", "10000", "fffffffb", "1fffffffffffffff", "10000000000000000",
            "1000000000000000d", "fffffffffffffffffff1", "100000000000000000000", "100000000000000000000000000000000"};
  return {};
}
// Moduli that no 128-bit word can be mapped to uniformly.
static std::vector<string> BigModuli() {
  if (TT<T>::Name() != "ZZ_p") return {};
  return {"7fffffffffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffb", "fffffffffffffffffffffffffffffffe"};
}
static std::vector<string> WideModuli() {   // more than 16 bytes
  if (TT<T>::Name() != "ZZ_p") return {};
  return {"100000000000000000000000000000001", "1fffffffffffffffffffffffffffffffff", "1000000000000000000000000000000000000000000000d"};
}

struct Inst {
  string kind;
  int sec4 = 160;
  int64_t last_size = 0, last_k = 0;   // of the last MPFSS run
  std::unique_ptr<AllButOneRandomOT> rot[2];
  std::unique_ptr<SPFSSKnownIndex> sp[2];
  std::unique_ptr<ScalarVectorGilboaProduct> gil[2];
  std::unique_ptr<MPFSSKnownIndices> mp[2];
};
template <typename P> static string Take(mpc_utils::StatusOr<std::unique_ptr<P>> r, std::unique_ptr<P>* to) {
  if (!r.ok()) return Code(r);
  *to = std::move(r.ValueOrDie());
  return "OK";
}
static string MakeInst(Inst& in, int p, mpc_utils::comm_channel* ch) {
  double sec = in.sec4 / 4.0;
  bool dflt = in.sec4 == 160;
  if (in.kind == "rot") return Take(dflt ? AllButOneRandomOT::Create(ch) : AllButOneRandomOT::Create(ch, sec), &in.rot[p]);
  if (in.kind == "spfss") return Take(dflt ? SPFSSKnownIndex::Create(ch) : SPFSSKnownIndex::Create(ch, sec), &in.sp[p]);
  if (in.kind == "gilboa") return Take(dflt ? ScalarVectorGilboaProduct::Create(ch) : ScalarVectorGilboaProduct::Create(ch, sec), &in.gil[p]);
  return Take(dflt ? MPFSSKnownIndices::Create(ch) : MPFSSKnownIndices::Create(ch, sec), &in.mp[p]);
}

using Vec = std::vector<T>;
static Vec RandVec(size_t n) { Vec v(n); for (auto& x : v) x = RandElem<T>(g); return v; }
static Vec UniVec(size_t n) { Vec v(n); for (auto& x : v) x = TT<T>::From(absl::MakeUint128(g.Next(), g.Next())); return v; }
static string VV(const std::vector<Vec>& v) {
  string s = "[";
  for (size_t i = 0; i < v.size(); i++) {
    s += i ? ",[" : "[";
    for (size_t k = 0; k < v[i].size(); k++) s += (k ? ",\"" : "\"") + TT<T>::H(v[i][k]) + "\"";
    s += "]";
  }
  return s + "]";
}
static string V1(const Vec& v) { string s = VV({v}); return s.substr(1, s.size() - 2); }
static std::vector<absl::Span<T>> Spans(std::vector<Vec>& v) {
  std::vector<absl::Span<T>> r;
  for (auto& x : v) r.push_back(MakeSpan(x));
  return r;
}
static int64_t RandLen(bool big) {
  switch (g.Below(8)) {
    case 0: return g.Below(4);
    case 1: return 1;
    case 2: { int64_t p = int64_t(1) << (1 + g.Below(big ? 9 : 6)); return p - 1 + g.Below(3); }
    case 3: return big ? 1 + g.Below(700) : 1 + g.Below(90);
    default: return 1 + g.Below(24);
  }
}

// ------------------------------------------------------------------ one operation
struct Op {
  string kind;             // rot | spfss | gilboa | mpfss
  int inst = 0, prov = 0;  // prov: the party that is sender / value provider
  int variant = 0;
  std::vector<int64_t> n, idx;
  Vec a, b;                // value shares (provider, index provider)
  T x;                     // gilboa, mpfss
  Vec y, u, v, w;
  int64_t size = 0;
  std::vector<int64_t> prep0, prep1;
  // results
  std::vector<Vec> out[2]; // [0] provider / sender, [1] other
  uint64_t drawn = 0;
  int nb = 0;
};

static string RunProvider(Inst& in, Op& o, int p) {
  auto& out = o.out[0];
  auto sp = Spans(out);
  if (o.kind == "rot") {
    if (out.size() == 1 && o.variant % 2) return Code(in.rot[p]->RunSender(sp[0]));
    return Code(in.rot[p]->RunSenderBatched(MakeSpan(sp)));
  }
  if (o.kind == "spfss") {
    if (out.size() == 1 && o.variant % 3 == 1) return Code(in.sp[p]->RunValueProvider(o.a[0], sp[0]));
    if (out.size() == 1 && o.variant % 3 == 2) {
      auto r = in.sp[p]->RunValueProvider(o.a[0], static_cast<int64_t>(out[0].size()));
      if (r.ok()) out[0] = r.ValueOrDie();
      return Code(r);
    }
    return Code(in.sp[p]->RunValueProviderBatched(MakeConstSpan(o.a), MakeSpan(sp)));
  }
  if (o.kind == "gilboa") {
    if (o.variant % 2) {
      auto r = in.gil[p]->RunValueProvider(o.x, static_cast<int64_t>(out[0].size()));
      if (r.ok()) out[0] = r.ValueOrDie();
      return Code(r);
    }
    return Code(in.gil[p]->RunValueProvider(o.x, sp[0]));
  }
  for (auto q : o.prep0) { Status s = in.mp[p]->UpdateBuckets(q / 1000, q % 1000); if (!s.ok()) return Code(s); }
  return Code(in.mp[p]->RunValueProviderVectorOLE(o.x, static_cast<int>(o.y.size()), MakeConstSpan(o.w), sp[0]));
}
static string RunOther(Inst& in, Op& o, int p) {
  auto& out = o.out[1];
  auto sp = Spans(out);
  if (o.kind == "rot") {
    if (out.size() == 1 && o.variant % 2) return Code(in.rot[p]->RunReceiver(o.idx[0], sp[0]));
    return Code(in.rot[p]->RunReceiverBatched(MakeConstSpan(o.idx), MakeSpan(sp)));
  }
  if (o.kind == "spfss") {
    if (out.size() == 1 && o.variant % 3 == 1) return Code(in.sp[p]->RunIndexProvider(o.b[0], o.idx[0], sp[0]));
    if (out.size() == 1 && o.variant % 3 == 2) {
      auto r = in.sp[p]->RunIndexProvider(o.b[0], o.idx[0], static_cast<int64_t>(out[0].size()));
      if (r.ok()) out[0] = r.ValueOrDie();
      return Code(r);
    }
    return Code(in.sp[p]->RunIndexProviderBatched(MakeConstSpan(o.b), MakeConstSpan(o.idx), MakeSpan(sp)));
  }
  if (o.kind == "gilboa") {
    if (o.variant / 2 % 2) {
      auto r = in.gil[p]->RunVectorProvider(MakeConstSpan(o.y));
      if (r.ok()) out[0] = r.ValueOrDie();
      return Code(r);
    }
    return Code(in.gil[p]->RunVectorProvider(MakeConstSpan(o.y), sp[0]));
  }
  for (auto q : o.prep1) { Status s = in.mp[p]->UpdateBuckets(q / 1000, q % 1000); if (!s.ok()) return Code(s); }
  return Code(in.mp[p]->RunIndexProviderVectorOLE(MakeConstSpan(o.y), MakeConstSpan(o.idx), MakeConstSpan(o.u), MakeConstSpan(o.v), sp[0]));
}

static void Alloc(Op& o) {
  for (int s = 0; s < 2; s++) {
    o.out[s].clear();
    if (o.kind == "rot" || o.kind == "spfss") for (auto k : o.n) o.out[s].push_back(RandVec(k));
    else if (o.kind == "gilboa") o.out[s].push_back(RandVec(o.y.size()));
    else o.out[s].push_back(RandVec(o.size));
  }
}
// Lengths around powers of two up to `top` bits, or anything below.
static int64_t LargeLen(int top) {
  int b = top - g.Below(5);
  return g.Below(2) ? (int64_t(1) << b) + static_cast<int64_t>(g.Below(5)) - 2 : (int64_t(1) << b) + static_cast<int64_t>(g.Below(int64_t(1) << b));
}
// The number of elements up to which hashes are uniform enough, if it is small.
static int64_t FlavourEdge(int sec4) {
  NTL::ZZ m = UnHexZZ(TT<T>::Modulus());
  int w = ScalarHelper<T>::SizeOf();
  if (w > 16) return 0;
  double r = NTL::conv<double>(NTL::power2_ZZ(8 * w) % m);
  if (r < 1) return 0;
  double e = 8 * w - sec4 / 4.0 - std::log2(r);
  return e > 0 && e < 9.5 ? static_cast<int64_t>(std::exp2(e)) : 0;
}
// Random arguments for an operation.
static Op MakeOp(const string& kind, int inst, Inst& in, bool big) {
  Op o;
  o.kind = kind; o.inst = inst; o.prov = g.Below(2); o.variant = g.Below(12);
  if (kind == "rot" || kind == "spfss") {
    int k = g.Below(2) ? 1 : g.Below(g.Below(5) ? 6 : 14);
    // Now and then very many outputs.
    bool many = many_ok && !large && g.Below(20) == 0;
    if (large) k = 1 + g.Below(3);
    if (many) k = g.Below(8) == 0 ? 1000 + g.Below(100) : (1 << (5 + g.Below(4))) + g.Below(3);
    for (int i = 0; i < k; i++) {
      o.n.push_back(many ? g.Below(4) : large && (i == 0 || g.Below(2)) ? LargeLen(i == 0 ? 16 : 12) : RandLen(big));
      int64_t n = o.n.back();
      o.idx.push_back(n == 0 ? g.Below(9) : g.Below(4) == 0 ? 0 : g.Below(4) == 0 ? n - 1 : g.Below(n));
    }
    o.a = RandVec(k); o.b = RandVec(k);
  } else if (kind == "gilboa") {
    o.x = RandElem<T>(g);
    int64_t edge = large || TT<T>::Modulus().empty() || !TT<T>::kModular ? 0 : FlavourEdge(in.sec4);
    if (edge && g.Below(3)) o.y = RandVec(std::max<int64_t>(0, edge - 1 + static_cast<int64_t>(g.Below(3))));
    else o.y = RandVec(large ? LargeLen(ScalarHelper<T>::SizeOf() > 8 ? 11 : 13) : g.Below(6) == 0 ? g.Below(2) : 1 + g.Below(g.Below(4) ? 20 : big ? 70 : 40));
  } else {
    int k = 1 + g.Below(g.Below(4) ? 5 : 14);
    o.size = g.Below(4) == 0 ? k + g.Below(3) : g.Below(6) == 0 ? 400 + g.Below(big ? 1200 : 300) : k + g.Below(120);
    if (large) {
      k = in.sec4 < 40 ? 1 + g.Below(2) : g.Below(2) ? 1 + g.Below(20) : 20 + g.Below(200);
      o.size = in.sec4 < 40 ? (g.Below(2) ? 150000 + g.Below(150000) : 50000 + g.Below(60000)) : LargeLen(15);
    }
    // The same number of indices as before in an output whose size is equal modulo 2^8 (2^16).
    if (in.last_k && g.Below(large ? 2 : 5) == 0) {
      int64_t step = large ? 65536 : 256 * (1 + g.Below(3)), s = in.last_size > step && g.Below(2) ? in.last_size - step : in.last_size + step;
      if (s >= in.last_k) { o.size = s; k = in.last_k; }
    }
    in.last_size = o.size; in.last_k = k;
    std::vector<int64_t> all(o.size);
    for (int64_t i = 0; i < o.size; i++) all[i] = i;
    for (int i = 0; i < k; i++) std::swap(all[i], all[i + g.Below(o.size - i)]);
    o.idx.assign(all.begin(), all.begin() + k);
    if (g.Below(3) == 0) o.idx[0] = std::find(o.idx.begin() + 1, o.idx.end(), 0) == o.idx.end() ? 0 : o.idx[0];
    if (o.size > 100000) {                     // far into its bucket
      int64_t i = o.size - 1 - g.Below(o.size / 4);
      if (std::find(o.idx.begin(), o.idx.end(), i) == o.idx.end()) o.idx[k - 1] = i;
    }
    o.y = RandVec(k);
    o.x = RandElem<T>(g);
    for (int q = g.Below(3); q > 0; q--) {
      int64_t s = g.Below(2) ? o.size : 1 + g.Below(60), m = g.Below(2) ? k : 1 + g.Below(6);
      if (g.Below(2)) o.prep0.push_back(s * 1000 + m); else o.prep1.push_back(s * 1000 + m);
    }
    int nb = -1;
    auto r = in.mp[0]->NumBuckets(k);
    if (r.ok()) nb = r.ValueOrDie();
    o.nb = nb;
    o.u = UniVec(nb > 0 ? nb : 0); o.v = UniVec(o.u.size()); o.w.resize(o.u.size());
    for (size_t i = 0; i < o.u.size(); i++) o.w[i] = o.u[i] * o.x + o.v[i];
  }
  Alloc(o);
  return o;
}
static std::vector<string> Exec(Session& s, Inst& in, Op& o) {
  uint64_t b0 = vrng::Bytes();
  Session::Fn prov = [&](int p) { return RunProvider(in, o, p); };
  Session::Fn oth = [&](int p) { return RunOther(in, o, p); };
  auto codes = s.Both(o.prov == 0 ? prov : oth, o.prov == 0 ? oth : prov);
  o.drawn = vrng::Bytes() - b0;
  if (o.prov == 1) std::swap(codes[0], codes[1]);
  return codes;   // [provider, other]
}
// The event of an executed operation.
static J OpEvent(const Op& o, const Inst& in, const std::vector<string>& codes, const string& left, const char* ev = nullptr) {
  J j(ev ? ev : o.kind);
  j.I("inst", o.inst).I("prov", o.prov).Raw("R", RingJson<T>()).S("ty", TT<T>::Name()).I("sec4", in.sec4).VS("codes", codes)
      .Raw("left", left);
  if (o.kind == "rot" || o.kind == "spfss") {
    j.VI("n", o.n).VI("idx", o.idx).Raw("po", VV(o.out[0])).Raw("ro", VV(o.out[1]));
    j.I("drawn", o.drawn);
    if (o.kind == "spfss") j.Raw("a", V1(o.a)).Raw("b", V1(o.b));
  } else if (o.kind == "gilboa") {
    j.S("x", TT<T>::H(o.x)).Raw("y", V1(o.y)).Raw("po", V1(o.out[0][0])).Raw("ro", V1(o.out[1][0]));
  } else {
    j.S("x", TT<T>::H(o.x)).Raw("y", V1(o.y)).VI("idx", o.idx).I("size", o.size).I("nb", o.nb).Raw("u", V1(o.u)).Raw("v", V1(o.v)).Raw("w", V1(o.w))
        .Raw("po", V1(o.out[0][0])).Raw("ro", V1(o.out[1][0]));
  }
  return j;
}
static string PickModulus(const string& kind) {
  auto m = Moduli();
  if (m.empty()) return "";
  if (kind == "gilboa" && g.Below(2)) {
    // 2^b - k, chosen so that hashes of whole bytes are just uniform enough, or just not.
    bool zz = TT<T>::Name() == "zz_p";
    int w = zz ? 4 + g.Below(5) : 4 + g.Below(13), b = 8 * w - g.Below(8);
    if (zz) b = std::min(b, 60);
    int top = 8 * w - 40 - static_cast<int>(g.Below(14)) + 2;   // size of what is left of 2^(8w)
    int bits = std::max(1, std::min(b - 2, top - (8 * w - b)));
    NTL::ZZ k = NTL::power2_ZZ(bits - 1) + NTL::conv<NTL::ZZ>(static_cast<long>(g.Next() & 0xffffff)) % NTL::power2_ZZ(bits - 1);
    return Hex(NTL::ZZ(NTL::power2_ZZ(b) - k));
  }
  for (;;) {
    string r = m[g.Below(m.size())];
    // Leaves are drawn from 128-bit words: leave room for the error bound, or divide evenly.
    if (kind != "gilboa" && r.size() > 16 && r.find_first_not_of('0', 1) != string::npos) continue;
    return r;
  }
}
static int PickSec(const string& kind) {
  if (kind == "gilboa" && g.Below(3)) return 160;
  if (kind == "mpfss") return 160 + 10 * (g.Below(3) / 2);
  static const int s[] = {0, 40, 101, 160, 160, 160, 170};
  return s[g.Below(7)];
}

static std::vector<string> New(Session& s, Inst& in) {
  Session::Fn f = [&](int p) { return MakeInst(in, p, s.ch[p].get()); };
  return s.Both(f, f);
}

// Integers of more than 16 bytes are refused by both.
static void TooWide(Session& s) {
  auto w = WideModuli();
  s.SetModulus<T>(w[g.Below(w.size())]);
  Inst in; in.kind = "gilboa";
  New(s, in);
  for (int role = 0; role < 2; role++) {
    Op o = MakeOp("gilboa", 0, in, false);
    if (o.y.empty()) { o.y = RandVec(1); Alloc(o); }
    auto before0 = VV(o.out[0]), before1 = VV(o.out[1]);
    string code = s.Alone(role, [&] { return role == 0 ? RunProvider(in, o, role) : RunOther(in, o, role); });
    Emit(J("wide").Raw("R", RingJson<T>()).I("role", role).S("code", code).I("moved", s.moved + s.left).B("same", before0 == VV(o.out[0]) && before1 == VV(o.out[1])));
  }
}
static void Programs(int n, const string& mode) {
  many_ok = true;
  static const char* kinds[] = {"rot", "spfss", "gilboa", "mpfss"};
  bool big = max_threads > 1;
  for (int it = 0; it < n; it++) {
    bool measured = g.Below(2);
    Session s(measured, g.Next());
    s.hub->record = true;
    if (max_threads > 1) for (int p = 0; p < 2; p++) s.SetThreads(p, 1 + g.Below(max_threads));
    string cur = PickModulus(mode == "mix" ? "mpfss" : mode);
    s.SetModulus<T>(cur);
    Emit(J("session").B("measured", measured).Raw("R", RingJson<T>()).S("ty", TT<T>::Name()));
    std::deque<Inst> insts;
    int ops = large ? 2 : 3 + g.Below(6);
    for (int k = 0; k < ops; k++) {
      if (insts.empty() || g.Below(5) == 0) {
        insts.emplace_back();
        Inst& in = insts.back();
        in.kind = mode == "mix" ? kinds[g.Below(4)] : mode;
        in.sec4 = large && g.Below(2) ? 0 : PickSec(in.kind);
        auto codes = New(s, in);
        Emit(J("new").S("kind", in.kind).I("sec4", in.sec4).VS("codes", codes).I("left", s.left));
        if (codes[0] != "OK" || codes[1] != "OK") break;
      }
      if (!cur.empty() && g.Below(3) == 0) s.SetModulus<T>(cur = PickModulus(mode == "mix" ? "mpfss" : mode));
      if (max_threads > 1 && g.Below(3) == 0) for (int p = 0; p < 2; p++) s.SetThreads(p, 1 + g.Below(max_threads));
      if (max_threads > 1) for (int p = 0; p < 2; p++) s.region[p] = g.Below(4) ? 0 : g.Below(4);
      int i = g.Below(insts.size());
      if (g.Below(2)) i = insts.size() - 1;
      Op o = MakeOp(insts[i].kind, i, insts[i], big);
      size_t from = s.hub->events.size();
      auto codes = Exec(s, insts[i], o);
      J j = OpEvent(o, insts[i], codes, std::to_string(s.left));
      s.Transcript<T>(j, with_transcript ? from : s.hub->events.size());
      Emit(j);
      if (codes[0] != "OK" || codes[1] != "OK") break;
    }
#ifndef NO_PACK
    if (mode == "gilboa" && with_transcript && TT<T>::From(1) != TT<T>::From(0)) {
      // Packing of words.
      int stride = 16 / ScalarHelper<T>::SizeOf();
      for (int q = 0; q < 6; q++) {
        Vec v = RandVec(q % 2 ? stride : 1 + g.Below(stride));
        auto blk = gilboa_internal::SpanToEMPBlock<T>(MakeConstSpan(v));
        auto w = gilboa_internal::EMPBlockToVector<T>(blk);
        Emit(J("pack").Raw("R", RingJson<T>()).Raw("in", V1(v)).Raw("out", V1(Vec(w.begin(), w.end()))));
      }
    }
#endif
    if (mode == "gilboa" && !WideModuli().empty()) {
      TooWide(s);
      s.SetModulus<T>(cur);
    }
  }
}

// --------------------------------------------------------- executions side by side
// Runs `o` on a fresh session with the given seed; returns [view0, view1] and the op.
struct Done { string view[2]; std::vector<string> codes; Op o; string ops; uint64_t from = 0, to = 0; };
static Done Fresh(Op o, uint64_t seed, bool measured, int sec4, const string& modulus, int threads0 = 0, int threads1 = 0, int region0 = 0, int region1 = 0, int64_t flip = -1) {
  Done d;
  Session s(measured, seed);
  if (threads0) { s.SetThreads(0, threads0); s.SetThreads(1, threads1); }
  s.hub->record = true;
  s.SetModulus<T>(modulus);
  Inst in;
  in.kind = o.kind; in.sec4 = sec4;
  d.codes = New(s, in);
  if (d.codes[0] != "OK") return d;
  s.region[0] = region0; s.region[1] = region1;
  size_t from = s.hub->events.size();
  s.party[o.prov]->Do([&] { d.from = vrng::ThreadPos(); vrng::SetFlip(flip); });
  d.codes = Exec(s, in, o);
  s.party[o.prov]->Do([&] { d.to = vrng::ThreadPos(); vrng::SetFlip(-1); });
  for (int role = 0; role < 2; role++) d.view[role] = s.View(role == 0 ? o.prov : 1 - o.prov, from);
  // The masked vector, as sent.
  J j;
  s.Transcript<T>(j, from);
  d.ops = j.str();
  d.o = std::move(o);
  return d;
}
std::vector<std::vector<string>> SentVectors(const string& ops, int p);
static void Pair(const string& what, const Done& a, const Done& b, int role) {
  Emit(J("pair").S("what", what).VS("ca", a.codes).VS("cb", b.codes).Raw("va", a.view[role]).Raw("vb", b.view[role])
           .Raw("oa", VV(a.o.out[role])).Raw("ob", VV(b.o.out[role])));
}
static void Views(int n, const string& only) {
  static const char* kinds[] = {"rot", "spfss", "gilboa", "mpfss"};
  for (int it = 0; it < n; it++) {
    string kind = only == "all" ? kinds[it % 4] : only;
    string modulus = PickModulus(kind);
    TT<T>::SetModulus(modulus.empty() ? "7" : modulus);
    int sec4 = PickSec(kind);
    bool measured = g.Below(2);
    uint64_t seed = g.Next();
    Inst in;
    in.kind = kind; in.sec4 = sec4;
    Session tmp(measured, seed);
    tmp.SetModulus<T>(modulus);
    if (kind == "mpfss") {
      auto c = New(tmp, in);
      if (c[0] != "OK") { Emit(J("new").S("kind", kind).I("sec4", sec4).VS("codes", c).I("left", 0)); continue; }
    }
    Op o = MakeOp(kind, 0, in, false);
    if (o.n.size() == 0 && (kind == "rot" || kind == "spfss")) { o.n = {5}; o.idx = {2}; o.a = RandVec(1); o.b = RandVec(1); Alloc(o); }
    o.prep0.clear(); o.prep1.clear();
    // Values that are all zero, in one of two multi-point runs.
    int zero = kind == "mpfss" ? g.Below(4) : 0;
    bool zeros = zero == 1;
    if (zero == 2) for (auto& y : o.y) y = TT<T>::From(0);
    Done a = Fresh(o, seed, measured, sec4, modulus);
    Op o2 = o;
    if (kind == "rot" || kind == "spfss") {
      for (size_t i = 0; i < o.n.size(); i++) if (o.n[i] > 1) o2.idx[i] = (o.idx[i] + 1 + g.Below(o.n[i] - 1)) % o.n[i];
      if (kind == "spfss") o2.b = RandVec(o.n.size());
      Done b = Fresh(o2, seed, measured, sec4, modulus);
      Pair(kind + "-provider", a, b, 0);          // provider's view, other indices (and shares)
      if (kind == "spfss") {                        // value shares of empty outputs do not travel
        Op o3 = o;
        bool any = false;
        for (size_t i = 0; i < o.n.size(); i++) if (o.n[i] == 0) { o3.a[i] = RandElem<T>(g); any = true; }
        if (any) Pair("spfss-empty", a, Fresh(o3, seed, measured, sec4, modulus), 1);
      }
    } else if (kind == "gilboa") {
      // The scalar's owner sees what depends on y only through masks; the vector's owner learns nothing.
      o2.x = RandElem<T>(g);
      Done b = Fresh(o2, seed, measured, sec4, modulus);
      Pair("gilboa-vector", a, b, 1);
    } else {
      // Other indices and values, and u chosen so that the masked vector is the same.
      for (size_t i = 0; i < o2.y.size(); i++) o2.y[i] = zeros ? T(TT<T>::From(0)) : RandElem<T>(g);
      for (size_t i = 0; i < o2.idx.size(); i++) {
        for (;;) {
          int64_t c = g.Below(o.size);
          bool dup = false;
          for (size_t k = 0; k < i; k++) dup |= o2.idx[k] == c;
          if (!dup) { o2.idx[i] = c; break; }
        }
      }
      Done b = Fresh(o2, seed, measured, sec4, modulus);
      // Messages of the index provider in both runs.
      auto va = SentVectors(a.ops, 1 - o.prov), vb = SentVectors(b.ops, 1 - o.prov);
      if (va.size() != 1 || vb.size() != 1 || va[0].size() != o.u.size() || vb[0].size() != o.u.size()) {
        Emit(J("pair0").I("na", va.size()).I("nb", vb.size()));
        continue;
      }
      auto elem = [](const string& h) { return TT<T>::From(UnHex(h)); };
      Op o3 = o2;
      for (size_t i = 0; i < o.u.size(); i++) {
        T delta = elem(vb[0][i]) - o2.u[i];         // what was masked in the second run
        o3.u[i] = elem(va[0][i]) - delta;
        o3.v[i] = o.w[i] - o3.u[i] * o.x;
      }
      Done c = Fresh(o3, seed, measured, sec4, modulus);
      Pair("mpfss-value", a, c, 0);
    }
  }
}
// What is sent by party p and is no vector of elements.
static string RawSent(const string& ops, int p) {
  string r, key = "{\"p\":" + std::to_string(p) + ",\"tag\":";
  size_t at = ops.find("\"msg\":");
  while ((at = ops.find(key, at)) != string::npos) {
    size_t e = std::min(ops.find(key.substr(0, 5), at + 1), ops.size());
    size_t d = ops.find("\"raw\":[", at);
    at += key.size();
    if (d > e) continue;
    r += ops.substr(d, ops.find(']', d) - d);
  }
  return r;
}
// Which bytes of the provider's randomness decide what: each one is changed in turn.
static void Entropy(int n, const string& only) {
  for (int it = 0; it < n; it++) {
    string kind = only == "all" ? (it % 2 ? "spfss" : "rot") : only;
    string modulus = PickModulus(kind);
    TT<T>::SetModulus(modulus.empty() ? "7" : modulus);
    int sec4 = PickSec(kind);
    bool measured = g.Below(2);
    uint64_t seed = g.Next();
    Inst in;
    in.kind = kind; in.sec4 = sec4;
    Op o = MakeOp(kind, 0, in, false);
    o.n.clear(); o.idx.clear();
    for (int i = 1 + g.Below(g.Below(2) ? 1 : 4); i > 0; i--) { o.n.push_back(g.Below(8) ? 2 + g.Below(12) : g.Below(2)); o.idx.push_back(o.n.back() ? g.Below(o.n.back()) : 0); }
    o.a = RandVec(o.n.size()); o.b = RandVec(o.n.size());
    Alloc(o);
    Done a = Fresh(o, seed, measured, sec4, modulus);
    std::vector<int64_t> own(o.n.size());
    int64_t keys = 0;
    string raw = RawSent(a.ops, o.prov);
    if (a.codes[0] == "OK") for (uint64_t at = a.from; at < a.to; at++) {
      Done b = Fresh(o, seed, measured, sec4, modulus, 0, 0, 0, 0, at);
      if (RawSent(b.ops, o.prov) != raw) { keys++; continue; }
      for (size_t i = 0; i < own.size(); i++) own[i] += b.o.out[0][i] != a.o.out[0][i];
    }
    Emit(J("entropy").S("kind", kind).Raw("R", RingJson<T>()).S("ty", TT<T>::Name()).VS("codes", a.codes).VI("n", o.n)
             .I("drawn", a.to - a.from).VI("own", own).I("keys", keys).B("raw", !raw.empty()));
  }
}
// Element vectors sent by party p, from a transcript.
std::vector<std::vector<string>> SentVectors(const string& ops, int p) {
  std::vector<std::vector<string>> r;
  size_t at = ops.find("\"msg\":");
  string key = "{\"p\":" + std::to_string(p) + ",\"tag\":\"obj:";
  while ((at = ops.find(key, at)) != string::npos) {
    size_t d = ops.find("\"dec\":", at);
    at += key.size();
    if (ops.compare(d + 6, 4, "true") != 0) continue;
    size_t e = ops.find("\"el\":[", d) + 6, f = ops.find(']', e);
    std::vector<string> v;
    string cur;
    for (size_t i = e; i < f; i++) {
      if (ops[i] == '"') { if (!cur.empty()) v.push_back(cur); cur.clear(); }
      else if (ops[i] != ',') cur += ops[i];
    }
    r.push_back(v);
  }
  return r;
}

// Equal inputs and randomness, different numbers of threads.
static void Threads(int n) {
  static const char* kinds[] = {"rot", "spfss", "mpfss", "spfss", "gilboa"};
  for (int it = 0; it < n; it++) {
    string kind = kinds[it % 5];
    string modulus = PickModulus(kind);
    TT<T>::SetModulus(modulus.empty() ? "7" : modulus);
    bool measured = g.Below(2);
    uint64_t seed = g.Next();
    Inst in;
    in.kind = kind; in.sec4 = PickSec(kind);
    Session tmp(measured, seed);
    tmp.SetModulus<T>(modulus);
    if (kind == "mpfss" && New(tmp, in)[0] != "OK") continue;
    Op o = MakeOp(kind, 0, in, false);
    if (kind == "rot" || kind == "spfss") {
      // Many outputs, of very different lengths.
      int k = 2 + g.Below(20);
      o.n.clear(); o.idx.clear();
      for (int i = 0; i < k; i++) {
        o.n.push_back(g.Below(5) == 0 ? 1 + g.Below(900) : g.Below(40));
        o.idx.push_back(o.n.back() ? g.Below(o.n.back()) : 0);
      }
      o.a = RandVec(k); o.b = RandVec(k);
      Alloc(o);
    }
    o.prep0.clear(); o.prep1.clear();
    int t0 = 2 + g.Below(12), t1 = 1 + g.Below(13);
    uint64_t before = vrng::WorkerCalls();
    Done a = Fresh(o, seed, measured, in.sec4, modulus, 1, 1);
    int r0 = g.Below(3) ? 0 : g.Below(4), r1 = g.Below(3) ? 0 : g.Below(4);
    Done b = Fresh(o, seed, measured, in.sec4, modulus, t0, t1, r0, r1);
    // Randomness drawn by worker threads is not the same in both.
    bool comparable = before == vrng::WorkerCalls();
    if (comparable && TT<T>::Name() == "ZZ_p") {
      Done c = Fresh(o, seed, measured, in.sec4, modulus, t0, t1, r0, r1);
      comparable = c.view[0] == b.view[0] && c.view[1] == b.view[1];
    }
    if (comparable) for (int role = 0; role < 2; role++) Pair("threads", a, b, role);
  }
}

// --------------------------------------------------------------- malformed calls
static string Refused(Session& s, int p, const std::function<string()>& f) { return s.Alone(p, f); }

static void Bad(int n, const string& only) {
  static const char* kinds[] = {"rot", "spfss", "gilboa", "mpfss"};
  for (int it = 0; it < n; it++) {
    string kind = only == "all" ? kinds[it % 3] : only;
    string modulus = PickModulus(kind);
    bool measured = g.Below(2);
    Session s(measured, g.Next());
    s.SetModulus<T>(modulus);
    Inst in;
    in.kind = kind; in.sec4 = 160;
    // With so much security, some sizes are too large for the hash functions.
    bool high = kind == "mpfss" && modulus.empty() && g.Below(3) == 0;
    if (high) in.sec4 = 4 * (108 + g.Below(12));
    // Creation with bad arguments, alone.
    for (int k = 0; k < 2; k++) {
      Inst x; x.kind = kind; x.sec4 = k ? -static_cast<int>(1 + g.Below(200)) : 160;
      int p = g.Below(2);
      string code = Refused(s, p, [&] { return MakeInst(x, p, k ? s.ch[p].get() : nullptr); });
      Emit(J("refuse").S("kind", kind).S("what", k ? "negative security" : "no channel").S("code", code).I("moved", s.moved + s.left).B("same", true));
    }
    auto codes = New(s, in);
    Emit(J("new").S("kind", kind).I("sec4", in.sec4).VS("codes", codes).I("left", s.left));
    if (codes[0] != "OK" || codes[1] != "OK") continue;
    if (kind == "gilboa" && !WideModuli().empty()) { TooWide(s); s.SetModulus<T>(modulus); }
    Op last;
    for (int k = 0; high && k < 8; k++) {
      Op o = MakeOp(kind, 0, in, g.Below(2));
      if (k > 0 && g.Below(2)) {               // the same again, or as many indices in more
        o = last;
        if (g.Below(2)) {
          o.size = o.size * (2 + g.Below(8)) + g.Below(9);
          if (g.Below(2)) {                    // anywhere in the larger size, all different
            std::set<int64_t> all;
            while (all.size() < o.idx.size()) all.insert(g.Below(o.size));
            o.idx.assign(all.begin(), all.end());
            std::reverse(o.idx.begin(), o.idx.begin() + g.Below(o.idx.size() + 1));
          }
        }
      }
      o.prep0.clear(); o.prep1.clear();
      Alloc(o);
      last = o;
      auto before0 = VV(o.out[0]), before1 = VV(o.out[1]);
      s.hub->events.clear();
      auto c = Exec(s, in, o);
      J j = OpEvent(o, in, c, std::to_string(s.left), "attempt");
      j.I("moved", s.hub->events.size()).B("same", before0 == VV(o.out[0]) && before1 == VV(o.out[1]));
      s.hub->events.clear();
      Emit(j);
      if (c[0] != c[1] || (c[0] != "OK" && c[0] != "INVALID_ARGUMENT")) break;
    }
    if (high) continue;
    for (int k = 0; k < 6; k++) {
      large = kind == "mpfss" && g.Below(8) == 0;
      Op o = MakeOp(kind, 0, in, false);
      large = false;
      int p = g.Below(2);
      bool prov = g.Below(2);
      string what;
      auto big = [&](int64_t n) -> int64_t {
        switch (g.Below(7)) {
          case 0: return n;
          case 1: return n + 1 + g.Below(5);
          case 2: return -1;
          case 3: return -1 - static_cast<int64_t>(g.Below(1000));
          case 4: return INT64_MAX;
          case 5: return INT64_MIN;
          default: return (int64_t(1) << 32) + g.Below(n);
        }
      };
      if (kind == "rot" || kind == "spfss") {
        if (o.n.empty() || g.Below(2)) {
          o.n = {1 + static_cast<int64_t>(g.Below(9)), 1 + static_cast<int64_t>(g.Below(9)), 1 + static_cast<int64_t>(g.Below(4))};
          o.idx = {0, 0, 0}; o.a = RandVec(3); o.b = RandVec(3); Alloc(o);
        }
        if (kind == "rot") prov = false;      // a sender has nothing to get wrong
        int q = g.Below(3);
        if (!prov && q < 2) {
          size_t i = g.Below(o.n.size());
          if (o.n[i] == 0) { o.n[i] = 3; Alloc(o); }
          o.idx[i] = big(o.n[i]);
          what = "index out of range";
        } else if (!prov && (kind == "rot" || g.Below(2))) {
          what = "indices of another length";
          o.variant = 0;
          if (g.Below(2)) o.idx.push_back(0); else o.idx.pop_back();
        } else {
          what = "values of another length";
          o.variant = 0;
          Vec& v = prov ? o.a : o.b;
          if (g.Below(2)) v.push_back(TT<T>::From(1)); else v.pop_back();
          if (!prov && g.Below(2)) { what = "values and indices of another length"; o.idx.resize(v.size(), 0); }
        }
      } else if (kind == "gilboa") {
        if (g.Below(3) == 0) {
          what = "negative length"; prov = true;
        } else {
          prov = false; o.variant = 0;
          what = "output of another length";
          if (g.Below(2) || o.y.empty()) o.out[1][0].push_back(TT<T>::From(1)); else o.out[1][0].pop_back();
        }
      } else {
        int q = g.Below(9);
        size_t i = g.Below(o.idx.size());
        prov = q == 6 || q == 7;
        switch (q) {
          case 0: what = "repeated index";
            if (o.idx.size() < 2) { o.idx.push_back(o.idx[0]); o.y.push_back(TT<T>::From(2)); if (o.size < 2) { o.size = 2; Alloc(o); }
              auto r = in.mp[0]->NumBuckets(2); o.u = UniVec(r.ValueOrDie()); o.v = UniVec(o.u.size()); }
            else o.idx[i] = o.idx[(i + 1) % o.idx.size()];
            break;
          case 1: what = "index out of range"; o.idx[i] = big(o.size); break;
          case 2: what = "no indices"; o.idx.clear(); o.y.clear(); break;
          case 3: what = "values of another length"; if (g.Below(2)) o.y.push_back(TT<T>::From(1)); else o.y.pop_back(); break;
          case 4: what = "output shorter than indices"; o.out[1][0].resize(o.idx.size() - 1);
            for (size_t m = 0; m < o.idx.size(); m++) o.idx[m] = m; break;
          case 5: {
            what = "correlation of another length";
            Vec& v = g.Below(2) ? o.u : o.v;
            if (g.Below(2)) v.push_back(TT<T>::From(1)); else v.resize(g.Below(v.size()));
            break;
          }
          case 6: what = "correlation of another length"; if (g.Below(2)) o.w.push_back(TT<T>::From(1)); else o.w.resize(g.Below(o.w.size())); break;
          case 7: what = "no indices"; o.y.clear(); break;
          default: what = "both correlations of another length"; o.u.pop_back(); o.v.pop_back(); break;
        }
      }
      auto before0 = VV(o.out[0]), before1 = VV(o.out[1]);
      string code = Refused(s, p, [&]() -> string {
        if (kind == "gilboa" && what == "negative length")
          return Code(in.gil[p]->RunValueProvider(o.x, -1 - static_cast<int64_t>(g.Below(50))));
        return prov ? RunProvider(in, o, p) : RunOther(in, o, p);
      });
      bool same = before0 == VV(o.out[0]) && before1 == VV(o.out[1]);
      Emit(J("refuse").S("kind", kind).S("what", what).S("code", code).I("moved", s.moved + s.left).B("same", same));
      if (code.compare(0, 5, "abort") == 0) break;
      // And now a valid call.
      Op v = MakeOp(kind, 0, in, false);
      auto c2 = Exec(s, in, v);
      J j = OpEvent(v, in, c2, std::to_string(s.left));
      s.hub->events.clear();
      s.Transcript<T>(j, 0);
      Emit(j);
      if (c2[0] != "OK" || c2[1] != "OK") break;
    }
  }
}

// -------------------------------------------------------- the sender's error bound
static void Bias(int n) {
  auto ms = Moduli();
  for (auto& b : BigModuli()) ms.push_back(b);
  for (auto& b : WideModuli()) ms.push_back(b);
  for (int it = 0; it < n; it++) {
    string m;
    if (!ms.empty()) {
      m = ms[g.Below(ms.size())];
      if (TT<T>::Name() == "ZZ_p" && g.Below(2)) {   // a random modulus with a chosen number of bits
        NTL::ZZ z = NTL::power2_ZZ(60 + g.Below(68)) + NTL::conv<NTL::ZZ>(static_cast<long>(g.Next() >> 8));
        m = Hex(z);
      }
    }
    Session s(g.Below(2), g.Next());
    s.SetModulus<T>(m);
    Inst in;
    in.kind = "rot";
    in.sec4 = g.Below(4) == 0 ? g.Below(600) : g.Below(400);
    auto some = [&] {
      Op o = MakeOp("rot", 0, in, g.Below(2));
      if (g.Below(8) == 0) { o.n = {static_cast<int64_t>(1 + g.Below(5000)), 3}; o.idx = {0, 0}; Alloc(o); }
      if (g.Below(8) == 0) { o.n.assign(2 + g.Below(60), 1 + g.Below(20)); o.idx.assign(o.n.size(), 0); Alloc(o); }
      return o;
    };
    Op first = some();
    if (!m.empty() && g.Below(4)) {   // aim at the edge for the first call
      NTL::ZZ q = NTL::conv<NTL::ZZ>(NTL::ZZ(0));
      for (char c : m) q = q * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
      double total = 0;
      for (auto x : first.n) total += x;
      double rem = NTL::conv<double>(NTL::power2_ZZ(128) % q);
      if (rem > 0 && total > 0) {
        double edge = 4 * (128 - std::log2(rem) - std::log2(total)) + 3.0 - static_cast<int>(g.Below(7));
        if (edge >= 0 && edge < 2000) in.sec4 = static_cast<int>(edge);
      }
    }
    auto codes = New(s, in);
    if (codes[0] != "OK") { Emit(J("new").S("kind", "rot").I("sec4", in.sec4).VS("codes", codes).I("left", s.left)); continue; }
    for (int k = 0; k < 3; k++) {
      Op o = k == 0 ? std::move(first) : some();
      auto before = VV(o.out[0]);
      int p = g.Below(2);
      string code = s.Alone(p, [&] { return RunProvider(in, o, p); });
      int64_t total = 0;
      for (auto x : o.n) total += x;
      Emit(J("bias").Raw("R", RingJson<T>()).S("ty", TT<T>::Name()).I("sec4", in.sec4).I("total", total).S("code", code)
               .B("refused", code == "INVALID_ARGUMENT").I("moved", s.moved + s.left).B("same", before == VV(o.out[0])));
      if (code != "INVALID_ARGUMENT") break;   // the peer is gone
    }
  }
}

// --------------------------------------------------- given programs, freely running
// P measured n { N kind | R inst prov }...
static void Given(const string& path) {
  Scn sc(path);
  string t;
  while (sc.Next(t)) {
    if (t != "P") std::exit(3);
    bool measured = sc.Int();
    int n = sc.Int();
    Session s(measured, g.Next());
    s.hub->record = false;
    string m = PickModulus("mpfss");
    s.SetModulus<T>(m);
    struct Step { bool create; int inst; };
    std::vector<Step> steps;
    std::deque<Inst> insts;
    std::vector<string> what;
    std::vector<int> prov;
    for (int k = 0; k < n; k++) {
      string c = sc.Str();
      if (c == "N") {
        insts.emplace_back();
        insts.back().kind = sc.Str();
        insts.back().sec4 = 160;
        steps.push_back({true, static_cast<int>(insts.size()) - 1});
        prov.push_back(0);
      } else {
        steps.push_back({false, static_cast<int>(sc.Int())});
        prov.push_back(sc.Int());
      }
    }
    // Arguments are chosen beforehand; NumBuckets comes from an instance of its own.
    Inst helper; helper.kind = "mpfss";
    Session hs(false, 5);
    hs.SetModulus<T>(m);
    New(hs, helper);
    std::vector<Op> ops(n);
    for (int k = 0; k < n; k++) if (!steps[k].create) {
      ops[k] = MakeOp(insts[steps[k].inst].kind, steps[k].inst, helper, false);
      ops[k].prov = prov[k];
    }
    std::vector<std::vector<string>> code(n, std::vector<string>(2, "not reached"));
    int jitter = g.Below(3);
    auto run = [&](int p) -> string {
      vrng::Stream mine(77 + p + jitter);
      for (int k = 0; k < n; k++) {
        if (jitter && mine.Below(2)) std::this_thread::sleep_for(std::chrono::microseconds(mine.Below(200)));
        Inst& in = insts[steps[k].inst];
        string c = Session::Guard([&] {
          if (steps[k].create) return MakeInst(in, p, s.ch[p].get());
          return ops[k].prov == p ? RunProvider(in, ops[k], p) : RunOther(in, ops[k], p);
        });
        code[k][steps[k].create ? p : ops[k].prov == p ? 0 : 1] = c;
        if (c != "OK") return "abort at step " + std::to_string(k) + ": " + c;
      }
      return "OK";
    };
    auto codes = s.Both(run, run);
    Emit(J("session").B("measured", measured).Raw("R", RingJson<T>()).S("ty", TT<T>::Name()));
    for (int k = 0; k < n; k++) {
      Inst& in = insts[steps[k].inst];
      if (steps[k].create) Emit(J("new").S("kind", in.kind).I("sec4", in.sec4).VS("codes", code[k]).I("left", 0));
      else {
        J j = OpEvent(ops[k], in, code[k], "0");
        j.VJ("ot", std::vector<string>()).VJ("msg", std::vector<string>());
        Emit(j);
      }
    }
    Emit(J("end").VS("codes", codes).I("left", s.left));
  }
}

int main(int argc, char** argv) {
  Out() = std::fopen(argv[1], "w");
  g = vrng::Stream(std::strtoull(argv[2], 0, 10));
  int n = std::atoi(argv[3]);
  string mode = argv[4];
  if (argc > 5) max_threads = std::atoi(argv[5]);
  if (max_threads < 1) max_threads = 1;
  TT<T>::SetModulus("7");
  string only = argc > 6 ? argv[6] : "all";
  if (mode == "view") Views(n, only);
  else if (mode == "threads") Threads(n);
  else if (mode == "bad") Bad(n, only);
  else if (mode == "entropy") Entropy(n, only);
  else if (mode == "bias") Bias(n);
  else if (mode == "prog") Given(argv[6]);
  else {
    with_transcript = only == "tx";
    large = only == "large";
    Programs(n, mode);
  }
  return 0;
}
