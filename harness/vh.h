// Common parts of the conformance harnesses: JSON trace output, deterministic
// randomness, scalar type descriptions, and a two-party runner.
#ifndef VERIF_HARNESS_VH_H_
#define VERIF_HARNESS_VH_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "NTL/ZZ.h"
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "absl/numeric/int128.h"
#include "distributed_vector_ole/gf128.h"
#include "vrng.h"

namespace vh {
using std::string;
using u128 = absl::uint128;
using distributed_vector_ole::gf128;

// ---------------------------------------------------------------- hex numbers
inline string Hex(u128 x) {
  if (x == 0) return "0";
  string s;
  while (x != 0) { s += "0123456789abcdef"[static_cast<int>(x & 15)]; x >>= 4; }
  return string(s.rbegin(), s.rend());
}
inline string Hex(const NTL::ZZ& z) {
  long n = NTL::NumBytes(z);
  std::vector<unsigned char> b(n + 1);
  NTL::BytesFromZZ(b.data(), z, n);
  string s;
  for (long i = n - 1; i >= 0; i--) { char t[3]; std::snprintf(t, 3, "%02x", b[i]); s += t; }
  size_t k = s.find_first_not_of('0');
  return k == string::npos ? "0" : s.substr(k);
}
inline string HexBytes(const void* p, size_t n) {
  auto q = static_cast<const uint8_t*>(p);
  string s(2 * n, '0');
  for (size_t i = 0; i < n; i++) { s[2*i] = "0123456789abcdef"[q[i] >> 4]; s[2*i+1] = "0123456789abcdef"[q[i] & 15]; }
  return s;
}
inline u128 UnHex(const string& s) {
  u128 r = 0;
  for (char c : s) r = (r << 4) | u128(c <= '9' ? c - '0' : c - 'a' + 10);
  return r;
}
inline NTL::ZZ UnHexZZ(const string& s) {
  NTL::ZZ r(0);
  for (char c : s) { r <<= 4; r += (c <= '9' ? c - '0' : c - 'a' + 10); }
  return r;
}
inline std::vector<uint8_t> UnHexBytes(const string& s) {
  std::vector<uint8_t> r(s.size() / 2);
  for (size_t i = 0; i < r.size(); i++) r[i] = static_cast<uint8_t>(UnHex(s.substr(2 * i, 2)));
  return r;
}

// ----------------------------------------------------------------------- JSON
class J {
 public:
  J() = default;
  explicit J(const string& ev) { S("ev", ev); }
  J& Raw(const string& k, const string& v) {
    if (!b_.empty()) b_ += ",";
    b_ += "\"" + k + "\":" + v;
    return *this;
  }
  static string Q(const string& v) {
    string r = "\"";
    for (char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) r += '?';
      else r += c;
    }
    return r + "\"";
  }
  J& S(const string& k, const string& v) { return Raw(k, Q(v)); }
  J& I(const string& k, int64_t v) { return Raw(k, std::to_string(v)); }
  J& B(const string& k, bool v) { return Raw(k, v ? "true" : "false"); }
  template <typename V> J& VS(const string& k, const V& v) {
    string s = "[";
    bool first = true;
    for (const auto& x : v) { if (!first) s += ","; first = false; s += Q(x); }
    return Raw(k, s + "]");
  }
  template <typename V> J& VI(const string& k, const V& v) {
    string s = "[";
    bool first = true;
    for (const auto& x : v) { if (!first) s += ","; first = false; s += std::to_string(x); }
    return Raw(k, s + "]");
  }
  template <typename V> J& VJ(const string& k, const V& v) {   // vector of raw JSON
    string s = "[";
    bool first = true;
    for (const auto& x : v) { if (!first) s += ","; first = false; s += x; }
    return Raw(k, s + "]");
  }
  string str() const { return "{" + b_ + "}"; }
 private:
  string b_;
};
inline FILE*& Out() { static FILE* f = stdout; return f; }
inline void Emit(const J& j) {
  string s = j.str() + "\n";
  std::fwrite(s.data(), 1, s.size(), Out());
  std::fflush(Out());
}

// ------------------------------------------------------------ scalar types
template <typename T> struct TT;
#define VH_INT(T, NAME, BITS)                                             \
  template <> struct TT<T> {                                              \
    static string Name() { return NAME; }                                 \
    static constexpr bool kModular = false;                               \
    static string Kind() { return "Z"; }                                  \
    static string Modulus() { return Hex(NTL::power2_ZZ(BITS)); }         \
    static string H(const T& x) { return Hex(u128(x)); }                  \
    static T From(u128 x) { return static_cast<T>(x); }                   \
    static void SetModulus(const string&) {}                              \
  };
VH_INT(uint8_t, "u8", 8)
VH_INT(uint16_t, "u16", 16)
VH_INT(uint32_t, "u32", 32)
VH_INT(uint64_t, "u64", 64)
VH_INT(absl::uint128, "u128", 128)
#undef VH_INT
template <> struct TT<gf128> {
  static string Name() { return "gf128"; }
  static constexpr bool kModular = false;
  static string Kind() { return "GF"; }
  static string Modulus() { return Hex(NTL::power2_ZZ(128)); }
  static string H(const gf128& x) { return Hex(static_cast<u128>(x)); }
  static gf128 From(u128 x) { return gf128(x); }
  static void SetModulus(const string&) {}
};
template <> struct TT<NTL::ZZ_p> {
  static string Name() { return "ZZ_p"; }
  static constexpr bool kModular = true;
  static string Kind() { return "Z"; }
  static string Modulus() { return Hex(NTL::ZZ_p::modulus()); }
  static string H(const NTL::ZZ_p& x) { return Hex(NTL::rep(x)); }
  static NTL::ZZ_p From(u128 x) {
    NTL::ZZ z(0);
    for (int i = 15; i >= 0; i--) { z <<= 8; z += static_cast<long>(static_cast<uint8_t>(x >> (8 * i))); }
    return NTL::conv<NTL::ZZ_p>(z);
  }
  static void SetModulus(const string& h) { NTL::ZZ_p::init(UnHexZZ(h)); }
};
template <> struct TT<NTL::zz_p> {
  static string Name() { return "zz_p"; }
  static constexpr bool kModular = true;
  static string Kind() { return "Z"; }
  static string Modulus() { return Hex(u128(static_cast<uint64_t>(NTL::zz_p::modulus()))); }
  static string H(const NTL::zz_p& x) { return Hex(u128(static_cast<uint64_t>(NTL::rep(x)))); }
  static NTL::zz_p From(u128 x) {
    u128 m = static_cast<uint64_t>(NTL::zz_p::modulus());
    return NTL::to_zz_p(static_cast<long>(static_cast<uint64_t>(x % m)));
  }
  static void SetModulus(const string& h) { NTL::zz_p::init(static_cast<long>(static_cast<uint64_t>(UnHex(h)))); }
};
template <typename T> string RingJson() {
  return J().S("kind", TT<T>::Kind()).S("m", TT<T>::Modulus()).str();
}
template <typename V> std::vector<string> HexVec(const V& v) {
  using T = typename std::decay<decltype(v[0])>::type;
  std::vector<string> r;
  for (int64_t i = 0; i < static_cast<int64_t>(v.size()); i++) r.push_back(TT<T>::H(v[i]));
  return r;
}
// A random element from the harness' own stream; `mode` biases to edge values.
template <typename T> T RandElem(vrng::Stream& g) {
  u128 x = absl::MakeUint128(g.Next(), g.Next());
  switch (g.Next() % 8) {
    case 0: x = 0; break;
    case 1: x = 1; break;
    case 2: x = ~u128(0); break;
    case 3: x = u128(1) << static_cast<int>(g.Next() % 128); break;
    default: break;
  }
  T r = TT<T>::From(x);
  if (TT<T>::kModular && g.Next() % 8 == 0) r = TT<T>::From(0) - TT<T>::From(1);  // modulus - 1
  return r;
}

// --------------------------------------------------------------- scenario text
// Whitespace separated tokens.
class Scn {
 public:
  explicit Scn(const string& path) {
    FILE* f = std::fopen(path.c_str(), "r");
    if (!f) { std::fprintf(stderr, "cannot open %s\n", path.c_str()); std::exit(3); }
    string s; char buf[65536]; size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
    std::fclose(f);
    in_.str(s);
  }
  bool Next(string& t) { return static_cast<bool>(in_ >> t); }
  string Str() { string t; if (!(in_ >> t)) { std::fprintf(stderr, "scenario truncated\n"); std::exit(3); } return t; }
  int64_t Int() { return std::stoll(Str()); }
 private:
  std::istringstream in_;
};
}  // namespace vh
#endif
