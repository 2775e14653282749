// Byte codecs for everything that travels over the comm_channel stand-in.
#ifndef VERIF_SHIM_CODEC_H_
#define VERIF_SHIM_CODEC_H_
#include <cstdint>
#include <cstring>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include "Eigen/Dense"
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "absl/numeric/int128.h"
#include "boost/archive/binary_iarchive.hpp"
#include "boost/archive/binary_oarchive.hpp"
#include "boost/serialization/array.hpp"

namespace verif {
using Bytes = std::vector<uint8_t>;
struct Reader {
  const Bytes& b; size_t pos = 0;
  explicit Reader(const Bytes& x) : b(x) {}
  void Get(void* d, size_t n) {
    if (pos + n > b.size()) throw std::runtime_error("codec underrun");
    if (n) std::memcpy(d, b.data() + pos, n);
    pos += n;
  }
};
inline void Put(Bytes& b, const void* d, size_t n) {
  auto p = static_cast<const uint8_t*>(d);
  if (n) b.insert(b.end(), p, p + n);
}
// Default: boost serialization, as in mpc_utils.
template <typename T, typename = void>
struct Codec {
  static std::string Tag() { return "boost"; }
  static void Enc(Bytes& b, const T& x) {
    std::ostringstream os(std::ios::binary);
    { boost::archive::binary_oarchive ar(os, boost::archive::no_header); ar << x; }
    std::string s = os.str();
    uint64_t n = s.size();
    Put(b, &n, 8); Put(b, s.data(), n);
  }
  static void Dec(Reader& r, T& x) {
    uint64_t n; r.Get(&n, 8);
    std::string s(n, 0); r.Get(&s[0], n);
    std::istringstream is(s, std::ios::binary);
    boost::archive::binary_iarchive ar(is, boost::archive::no_header); ar >> x;
  }
};
template <typename T>
struct Codec<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
  static std::string Tag() { return std::string(std::is_signed<T>::value ? "i" : "u") + std::to_string(8 * sizeof(T)); }
  static void Enc(Bytes& b, const T& x) { Put(b, &x, sizeof(T)); }
  static void Dec(Reader& r, T& x) { r.Get(&x, sizeof(T)); }
};
template <>
struct Codec<absl::uint128> {
  static std::string Tag() { return "u128"; }
  static void Enc(Bytes& b, const absl::uint128& x) {
    uint64_t w[2] = {absl::Uint128Low64(x), absl::Uint128High64(x)}; Put(b, w, 16);
  }
  static void Dec(Reader& r, absl::uint128& x) {
    uint64_t w[2]; r.Get(w, 16); x = absl::MakeUint128(w[1], w[0]);
  }
};
template <>
struct Codec<NTL::ZZ_p> {
  static std::string Tag() { return "ZZ_p"; }
  static void Enc(Bytes& b, const NTL::ZZ_p& x) {
    uint32_t n = NTL::NumBytes(NTL::rep(x)); Put(b, &n, 4);
    Bytes t(n); if (n) NTL::BytesFromZZ(t.data(), NTL::rep(x), n); Put(b, t.data(), n);
  }
  static void Dec(Reader& r, NTL::ZZ_p& x) {
    uint32_t n; r.Get(&n, 4); Bytes t(n); r.Get(t.data(), n);
    NTL::conv(x, NTL::ZZFromBytes(t.data(), n));
  }
};
template <>
struct Codec<NTL::zz_p> {
  static std::string Tag() { return "zz_p"; }
  static void Enc(Bytes& b, const NTL::zz_p& x) { int64_t v = NTL::rep(x); Put(b, &v, 8); }
  static void Dec(Reader& r, NTL::zz_p& x) { int64_t v; r.Get(&v, 8); x = NTL::to_zz_p(v); }
};
template <typename E>
struct Codec<std::vector<E>> {
  static std::string Tag() { return "vec<" + Codec<E>::Tag() + ">"; }
  static void Enc(Bytes& b, const std::vector<E>& x) {
    uint64_t n = x.size(); Put(b, &n, 8);
    for (const E& e : x) Codec<E>::Enc(b, e);
  }
  static void Dec(Reader& r, std::vector<E>& x) {
    uint64_t n; r.Get(&n, 8); x.resize(n);
    for (E& e : x) Codec<E>::Dec(r, e);
  }
};
template <typename E, int R, int C, int O, int MR, int MC>
struct Codec<Eigen::Matrix<E, R, C, O, MR, MC>> {
  using M = Eigen::Matrix<E, R, C, O, MR, MC>;
  static std::string Tag() { return "eig<" + Codec<E>::Tag() + ">"; }
  static void Enc(Bytes& b, const M& x) {
    uint64_t d[2] = {(uint64_t)x.rows(), (uint64_t)x.cols()}; Put(b, d, 16);
    for (Eigen::Index i = 0; i < x.size(); i++) Codec<E>::Enc(b, x.data()[i]);
  }
  static void Dec(Reader& r, M& x) {
    uint64_t d[2]; r.Get(d, 16); x.resize(d[0], d[1]);
    for (Eigen::Index i = 0; i < x.size(); i++) Codec<E>::Dec(r, x.data()[i]);
  }
};
}  // namespace verif
#endif
