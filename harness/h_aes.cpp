// The random generator: h_aes OUT seed n stream|limit|long
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "vh.h"
#include "vstatus.h"
using namespace vh;
using Gen = distributed_vector_ole::AESUniformBitGenerator;

static std::vector<uint8_t> RandSeed(vrng::Stream& g) {
  size_t n = g.Below(5) ? 32 : g.Below(70);
  std::vector<uint8_t> s(n);
  for (auto& b : s) b = static_cast<uint8_t>(g.Next());
  if (n >= 32) {
    switch (g.Below(4)) {  // counter close to a carry
      case 0: for (int i = 16; i < 32; i++) s[i] = 0xff; s[16] = static_cast<uint8_t>(256 - g.Below(20)); break;
      case 1: for (int i = 16; i < 24; i++) s[i] = 0xff; s[16] = static_cast<uint8_t>(256 - g.Below(20)); break;
      default: break;
    }
  }
  return s;
}

struct Slot {
  std::unique_ptr<Gen> g;
  uint64_t drawn = 0;
};

// Draws n values; records them unless `quiet`. Emits the events of what happened.
static void Draw(Slot& s, int id, uint64_t n, bool quiet) {
  std::vector<string> v;
  uint64_t got = 0;
  bool thrown = false;
  string what;
  try {
    for (; got < n; got++) {
      uint64_t x = (*s.g)();
      if (!quiet) v.push_back(Hex(u128(x)));
    }
  } catch (const std::exception& e) {
    thrown = true;
    what = e.what();
  }
  if (quiet) Emit(J("skip").I("g", id).S("n", Hex(u128(got))));
  else if (got) Emit(J("draw").I("g", id).VS("v", v));
  if (thrown) Emit(J("throw").I("g", id).S("what", what.substr(0, 60)));
  s.drawn += got;
}

int main(int argc, char** argv) {
  Out() = std::fopen(argv[1], "w");
  uint64_t seed = std::strtoull(argv[2], 0, 10);
  int n = std::atoi(argv[3]);
  string mode = argv[4];
  vrng::Stream g(seed);
  int64_t lim = Gen::kReseedInterval;
#ifdef DVO_VERIF_RESEED_INTERVAL
  bool scaled = true;
#else
  bool scaled = false;
#endif
  Emit(J("limit").S("v", Hex(u128(lim))).B("scaled", scaled).S("min", Hex(u128(Gen::min()))).S("max", Hex(u128(Gen::max()))));
  const int G = 6;
  std::vector<Slot> s(G);
  auto create = [&](int i, const std::vector<uint8_t>& sd, int64_t buf) {
    // Seeds are presented at odd addresses, too.
    std::vector<uint8_t> shifted(sd.size() + 16);
    int off = g.Below(16);
    std::copy(sd.begin(), sd.end(), shifted.begin() + off);
    auto r = buf == Gen::kDefaultBufferSize && g.Below(2) ? Gen::Create(absl::MakeConstSpan(shifted.data() + off, sd.size()))
                                          : Gen::Create(absl::MakeConstSpan(shifted.data() + off, sd.size()), buf);
    Emit(J("create").I("g", i + 1).S("seed", HexBytes(sd.data(), sd.size())).I("buf", buf < 0 ? 0 : buf).S("code", Code(r)));
    if (r.ok()) { s[i].g.reset(new Gen(std::move(r.ValueOrDie()))); s[i].drawn = 0; }
  };
  if (mode == "long") {   // counts past 2^31 blocks
    int64_t buf = 1 << 16;
    create(0, std::vector<uint8_t>(32, 7), buf);
    uint64_t left = 2 * static_cast<uint64_t>(lim) + 10 * buf;
    Draw(s[0], 1, left, true);
    for (int i = 0; i < 3; i++) Draw(s[0], 1, 5, false);
    auto st = s[0].g->seed(std::vector<uint8_t>(32, 9));
    Emit(J("seed").I("g", 1).S("seed", HexBytes(std::vector<uint8_t>(32, 9).data(), 32)).S("code", Code(st)));
    Draw(s[0], 1, 5, false);
    std::fclose(Out());
    return 0;
  }
  std::vector<std::vector<uint8_t>> pool;
  for (int i = 0; i < 4; i++) pool.push_back(RandSeed(g));
  for (int k = 0; k < n; k++) {
    int i = g.Below(G);
    int op = g.Below(10);
    auto sd = g.Below(2) ? pool[g.Below(4)] : RandSeed(g);
    if (!s[i].g || op == 0) {
      int64_t buf = g.Below(3) == 0 ? static_cast<int64_t>(g.Below(5)) - 2 : g.Below(2) ? 1 + g.Below(40) : 1 + g.Below(12);
      if (mode == "stream" && g.Below(12) == 0) buf = Gen::kDefaultBufferSize;
      if (mode == "stream" && g.Below(12) == 0) buf = 1000 + g.Below(3000);
      create(i, sd, buf);
    } else if (op == 1) {
      auto st = s[i].g->seed(sd);
      Emit(J("seed").I("g", i + 1).S("seed", HexBytes(sd.data(), sd.size())).S("code", Code(st)));
    } else if (op == 2) {
      int j = g.Below(G);
      if (j == i) continue;
      s[j].g.reset(new Gen(*s[i].g));
      Emit(J("copy").I("g", j + 1).I("from", i + 1));
    } else if (op == 3 && mode == "stream") {
      Draw(s[i], i + 1, g.Below(3) ? g.Below(100) : g.Below(300000), true);
    } else if (mode == "limit") {
      Draw(s[i], i + 1, 1 + g.Below(g.Below(3) ? 9 : 2 * lim + 5), false);
    } else {
      Draw(s[i], i + 1, 1 + g.Below(25), false);
    }
  }
  std::fclose(Out());
}
