// Deterministic replacement for the system's randomness. RAND_bytes() draws
// from the calling thread's stream if it has one, else from a shared stream.
#ifndef VERIF_HARNESS_VRNG_H_
#define VERIF_HARNESS_VRNG_H_
#include <cstddef>
#include <cstdint>
#include <vector>
namespace vrng {
struct Stream {
  uint64_t s;
  explicit Stream(uint64_t seed = 1) : s(seed ^ 0x1234567) { s = Next() ^ (seed << 32); s = Next(); }
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
};
void SetThreadStream(uint64_t seed);   // this thread draws from its own stream
void ClearThreadStream();
uint64_t ThreadPos();                  // bytes drawn from this thread's own stream
void SetFlip(int64_t at);              // change the byte at this position of it
void SetSharedSeed(uint64_t seed);
uint64_t Calls();                      // number of RAND_bytes calls so far
uint64_t WorkerCalls();                // those made by threads without a stream
uint64_t Bytes();                      // number of bytes drawn so far
// While set, RAND_bytes calls of this thread append what they returned.
extern thread_local std::vector<uint8_t>* capture;
}  // namespace vrng
#endif
