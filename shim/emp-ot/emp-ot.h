// Offline stand-in for emp-ot: ideal-functionality oblivious transfer with the
// interface of SHOTExtension. The receiver's request travels to the sender and
// the sender's answer travels back over the adapter's stream, so batch sizes,
// OT flavours and flushes must agree between the parties, as with the real one.
#ifndef VERIF_SHIM_EMP_OT_H_
#define VERIF_SHIM_EMP_OT_H_
#include <emmintrin.h>
#include <immintrin.h>
#include <cmath>
#include <cstring>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include "openssl/rand.h"
#include "verif/hub.h"
using namespace std;  // emp-tool does this, and users rely on it
namespace emp {
using block = __m128i;
inline block makeBlock(int64_t high, int64_t low) { return _mm_set_epi64x(high, low); }
inline block zero_block() { return _mm_setzero_si128(); }
inline void initialize_relic() {}

template <typename IO>
class SHOTExtension {
 public:
  explicit SHOTExtension(IO* io) : io_(io) {}
  void send(const block* m0, const block* m1, int64_t n) {
    Answer("ot", n, m0, m1);
  }
  void recv(block* out, const bool* c, int64_t n) { Request("ot", out, c, n); }
  template <typename F>
  void send_cot_ft(block* out, F f, int64_t n) {
    std::vector<block> m0(n > 0 ? n : 0), m1(n > 0 ? n : 0);
    if (n > 0) RAND_bytes(reinterpret_cast<uint8_t*>(m0.data()), n * sizeof(block));
    for (int64_t i = 0; i < n; i++) {
      m1[i] = f(m0[i], static_cast<uint64_t>(i));
      out[i] = m0[i];
    }
    Answer("cot", n, m0.data(), m1.data());
  }
  void recv_cot(block* out, const bool* c, int64_t n) { Request("cot", out, c, n); }

 private:
  static std::vector<uint8_t> Raw(const void* p, size_t n) {
    auto q = static_cast<const uint8_t*>(p);
    return std::vector<uint8_t>(q, q + n);
  }
  void Answer(const std::string& kind, int64_t n, const block* m0, const block* m1) {
    if (n < 0) throw verif::ProtocolError("OT with negative length");
    verif::Hub& h = io_->hub();
    if (io_->dirty()) io_->flush();
    h.ReadMsg(io_->id(), io_->stream(), "otreq:" + kind + ":" + std::to_string(n), true);
    h.Log({io_->id(), kind + "_send", io_->stream(), kind, (uint64_t)n, Raw(m0, n * sizeof(block)), Raw(m1, n * sizeof(block))});
    verif::Msg m;
    m.tag = "otresp:" + kind + ":" + std::to_string(n);
    m.bytes = Raw(m0, n * sizeof(block));
    auto r1 = Raw(m1, n * sizeof(block));
    m.bytes.insert(m.bytes.end(), r1.begin(), r1.end());
    h.WriteQuiet(io_->id(), io_->stream(), std::move(m));
    io_->mark_dirty();
  }
  void Request(const std::string& kind, block* out, const bool* c, int64_t n) {
    if (n < 0) throw verif::ProtocolError("OT with negative length");
    verif::Hub& h = io_->hub();
    h.WriteQuiet(io_->id(), io_->stream(), {"otreq:" + kind + ":" + std::to_string(n), {}, 0});
    io_->flush();
    verif::Msg m = h.ReadMsg(io_->id(), io_->stream(), "otresp:" + kind + ":" + std::to_string(n), true);
    for (int64_t i = 0; i < n; i++) {
      std::memcpy(&out[i], m.bytes.data() + (c[i] ? n * sizeof(block) : 0) + i * sizeof(block), sizeof(block));
    }
    std::vector<uint8_t> ch(n);
    for (int64_t i = 0; i < n; i++) ch[i] = c[i] ? 1 : 0;
    h.Log({io_->id(), kind + "_recv", io_->stream(), kind, (uint64_t)n, ch, Raw(out, n * sizeof(block))});
  }
  IO* io_;
};
}  // namespace emp
#endif
