#include "vrng.h"
#include <atomic>
#include <mutex>
#include "NTL/ZZ.h"
namespace vrng {
thread_local std::vector<uint8_t>* capture = nullptr;
namespace {
thread_local bool have = false;
thread_local Stream mine(1);
thread_local uint64_t pos = 0;
thread_local int64_t flip_at = -1;
std::mutex mu;
Stream shared(7);
std::atomic<uint64_t> calls{0}, bytes{0}, others{0};
void Fill(Stream& g, uint8_t* p, size_t n) {
  uint64_t w = 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) w = g.Next();
    p[i] = static_cast<uint8_t>(w >> (8 * (i % 8)));
  }
}
}  // namespace
void SetThreadStream(uint64_t seed) {
  mine = Stream(seed);
  have = true;
  pos = 0;
  flip_at = -1;
  NTL::SetSeed(NTL::conv<NTL::ZZ>(static_cast<long>(seed & 0x7fffffffffffull) + 1));
}
void ClearThreadStream() { have = false; }
void SetSharedSeed(uint64_t seed) { std::lock_guard<std::mutex> l(mu); shared = Stream(seed); }
uint64_t ThreadPos() { return pos; }
void SetFlip(int64_t at) { flip_at = at; }
uint64_t Calls() { return calls; }
uint64_t WorkerCalls() { return others; }
uint64_t Bytes() { return bytes; }
extern "C" int RAND_bytes(uint8_t* p, size_t n) {
  calls++;
  bytes += n;
  if (have) {
    Fill(mine, p, n);
    if (flip_at >= 0 && static_cast<uint64_t>(flip_at) >= pos && flip_at - pos < n) p[flip_at - pos] ^= 0xA5;
    pos += n;
  } else {
    others++;
    std::lock_guard<std::mutex> l(mu);
    Fill(shared, p, n);
  }
  if (capture) capture->insert(capture->end(), p, p + n);
  return 1;
}
}  // namespace vrng
