// Two parties on persistent threads over one in-process channel, run in lockstep
// (both parties' operations are joined before the next one) or freely.
#ifndef VERIF_HARNESS_VPARTY_H_
#define VERIF_HARNESS_VPARTY_H_
#include <omp.h>
#include <condition_variable>
#include <mutex>
#include <typeinfo>
#include "mpc_utils/comm_channel.hpp"
#include "vh.h"
#include "vregion.h"
#include "vstatus.h"
namespace vh {
// Elements in messages, whatever container they travelled in.
template <typename T> bool DecodeElems(const string& tag, const std::vector<uint8_t>& b, std::vector<string>* out) {
  try {
    verif::Reader r(b);
    if (tag == "obj:" + verif::Codec<std::vector<T>>::Tag()) {
      std::vector<T> v; verif::Codec<std::vector<T>>::Dec(r, v);
      for (auto& x : v) out->push_back(TT<T>::H(x));
      return true;
    }
    using M = Eigen::Matrix<T, 1, Eigen::Dynamic>;
    if (tag == "obj:" + verif::Codec<M>::Tag()) {
      M v; verif::Codec<M>::Dec(r, v);
      for (Eigen::Index i = 0; i < v.size(); i++) out->push_back(TT<T>::H(v[i]));
      return true;
    }
  } catch (std::exception&) {}
  return false;
}

class Party {
 public:
  explicit Party(int id) : id_(id), th_([this] { Loop(); }) {}
  ~Party() {
    { std::lock_guard<std::mutex> l(mu_); quit_ = true; }
    cv_.notify_all();
    th_.join();
  }
  void Start(std::function<void()> f) {
    std::lock_guard<std::mutex> l(mu_);
    job_ = std::move(f); busy_ = true;
    cv_.notify_all();
  }
  void Wait() {
    std::unique_lock<std::mutex> l(mu_);
    cv_.wait(l, [this] { return !busy_; });
  }
  void Do(std::function<void()> f) { Start(std::move(f)); Wait(); }
 private:
  void Loop() {
    for (;;) {
      std::function<void()> f;
      {
        std::unique_lock<std::mutex> l(mu_);
        cv_.wait(l, [this] { return busy_ || quit_; });
        if (!busy_) return;
        f = job_;
      }
      f();
      { std::lock_guard<std::mutex> l(mu_); busy_ = false; }
      cv_.notify_all();
    }
  }
  int id_;
  std::mutex mu_;
  std::condition_variable cv_;
  std::function<void()> job_;
  bool busy_ = false, quit_ = false;
  std::thread th_;
};

// A channel between two parties with fresh threads.
class Session {
 public:
  explicit Session(bool measured, uint64_t seed) : hub(std::make_shared<verif::Hub>()) {
    hub->timeout_s = 120;
    static const int ids[][2] = {{0, 1}, {0, 1}, {1, 0}, {1, 2}, {7, 3}, {2, 100}};
    const int* id = ids[seed % 6];
    for (int p = 0; p < 2; p++) {
      ch[p] = std::make_unique<mpc_utils::comm_channel>(hub, p, measured, id[p], id[1 - p]);
      party[p] = std::make_unique<Party>(p);
      party[p]->Do([=] { vrng::SetThreadStream(seed * 2 + p + 101); });
    }
  }
  using Fn = std::function<string(int)>;
  // Runs f on both parties; a thrown exception becomes the code "abort: ...".
  std::vector<string> Both(const Fn& f0, const Fn& f1) {
    hub->Begin();
    std::vector<string> codes(2);
    for (int p = 0; p < 2; p++) {
      party[p]->Start([&, p] {
        In(region[p], [&] { codes[p] = Guard([&] { return (p ? f1 : f0)(p); }); });
        hub->Finish(p);
      });
    }
    for (int p = 0; p < 2; p++) party[p]->Wait();
    left = hub->Unread() + hub->Unflushed();
    for (auto& c : codes) if (c.compare(0, 5, "abort") == 0) hub->Reset();
    return codes;
  }
  // Runs f on party p while the other party has gone away.
  string Alone(int p, const std::function<string()>& f) {
    hub->Begin();
    hub->Finish(1 - p);
    string code;
    uint64_t before = hub->bytes_sent[0] + hub->bytes_sent[1] + hub->messages;
    party[p]->Do([&] { code = Guard(f); });
    left = hub->Unread() + hub->Unflushed();
    moved = hub->bytes_sent[0] + hub->bytes_sent[1] + hub->messages - before;
    if (left || moved) hub->Reset();
    return code;
  }
  void SetThreads(int p, int n) { party[p]->Do([=] { omp_set_num_threads(n); }); }
  template <typename T> void SetModulus(const string& m) {
    if (m.empty()) return;
    TT<T>::SetModulus(m);
    for (int p = 0; p < 2; p++) party[p]->Do([=] { TT<T>::SetModulus(m); });
  }
  static string Guard(const std::function<string()>& f) {
    try { return f(); }
    catch (std::exception& e) { return string("abort: ") + e.what(); }
    catch (...) { return "abort: unknown exception"; }
  }
  // Everything party p obtained since event `from`: [where, hex, ...].
  string View(int p, size_t from) {
    std::vector<string> v;
    for (size_t i = from; i < hub->events.size(); i++) {
      auto& e = hub->events[i];
      if (e.party != p) continue;
      if (e.op == "recv") v.push_back(e.tag + ":" + HexBytes(e.a.data(), e.a.size()));
      else if (e.op == "ot_send" || e.op == "cot_send") v.push_back(e.op + ":" + std::to_string(e.n));
      else if (e.op == "ot_recv" || e.op == "cot_recv") v.push_back(e.op + ":" + HexBytes(e.b.data(), e.b.size()));
    }
    string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + J::Q(v[i]);
    return s + "]";
  }
  // The OT calls and messages since `from`, for the trace.
  template <typename T> void Transcript(J& j, size_t from) {
    std::vector<string> ot, msg;
    auto blocks = [](const std::vector<uint8_t>& b) {
      std::vector<string> r;
      for (size_t i = 0; i + 16 <= b.size(); i += 16) {
        uint64_t w[2]; std::memcpy(w, &b[i], 16);
        r.push_back(Hex(absl::MakeUint128(w[1], w[0])));
      }
      return r;
    };
    for (size_t i = from; i < hub->events.size(); i++) {
      auto& e = hub->events[i];
      if (e.op == "ot_send" || e.op == "cot_send")
        ot.push_back(J().I("p", e.party).S("op", e.op).I("n", e.n).VS("x", blocks(e.a)).VS("y", blocks(e.b)).str());
      else if (e.op == "ot_recv" || e.op == "cot_recv") {
        std::vector<int> c(e.a.begin(), e.a.end());
        ot.push_back(J().I("p", e.party).S("op", e.op).I("n", e.n).VI("c", c).VS("x", blocks(e.b)).str());
      } else if (e.op == "send") {
        std::vector<string> el;
        bool dec = DecodeElems<T>(e.tag, e.a, &el);
        J m;
        m.I("p", e.party).S("tag", e.tag).I("len", e.a.size()).B("dec", dec).VS("el", el);
        m.VS("raw", e.tag == "raw" ? blocks(e.a) : std::vector<string>());
        msg.push_back(m.str());
      }
    }
    j.VJ("ot", ot).VJ("msg", msg);
  }
  std::shared_ptr<verif::Hub> hub;
  std::unique_ptr<mpc_utils::comm_channel> ch[2];
  std::unique_ptr<Party> party[2];
  uint64_t left = 0, moved = 0;
  int region[2] = {0, 0};   // how calls are placed with regard to parallel regions (vregion.h)
};
}  // namespace vh
#endif
