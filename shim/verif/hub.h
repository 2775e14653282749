// In-process, two-party transport used by the offline stand-ins for
// mpc_utils::comm_channel, CommChannelEMPAdapter and emp-ot.
//
// Everything a party writes stays in its own outbox until it flushes; a read
// that can never be satisfied (both parties blocked, or the peer finished) and
// a read of something else than what was written raise ProtocolError instead
// of hanging. All messages can be recorded, in order, as (party, op, tag,
// payload) events.
#ifndef VERIF_SHIM_HUB_H_
#define VERIF_SHIM_HUB_H_
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

namespace verif {

struct ProtocolError : std::runtime_error {
  explicit ProtocolError(const std::string& w) : std::runtime_error(w) {}
};

struct Msg {
  std::string tag;               // "raw", "obj:<type>", "sync", "otreq:..", "otresp:.."
  std::vector<uint8_t> bytes;
  size_t pos = 0;                // consumed prefix (raw only)
};

// One recorded event.
struct Event {
  int party;          // who
  std::string op;     // send | recv | flush | ot_send | ot_recv | cot_send | cot_recv | mark
  int stream;
  std::string tag;
  uint64_t n;         // element count where meaningful
  std::vector<uint8_t> a, b;  // payload(s): for ot_send: m0s, m1s; ot_recv: choices, results
};

class Hub {
 public:
  bool record = false;
  std::vector<Event> events;
  uint64_t messages = 0;       // flushed messages
  uint64_t bytes_sent[2] = {0, 0};
  double timeout_s = 300;

  void Log(Event e) {
    if (!record) return;
    std::lock_guard<std::mutex> l(mu_);
    events.push_back(std::move(e));
  }
  void Write(int p, int stream, Msg m) {
    std::lock_guard<std::mutex> l(mu_);
    if (record) events.push_back({p, "send", stream, m.tag, m.bytes.size(), m.bytes, {}});
    bytes_sent[p] += m.bytes.size();
    out_[p][stream].push_back(std::move(m));
  }
  // Like Write, without logging the payload (used for ideal-OT internals).
  void WriteQuiet(int p, int stream, Msg m) {
    std::lock_guard<std::mutex> l(mu_);
    bytes_sent[p] += m.bytes.size();
    out_[p][stream].push_back(std::move(m));
  }
  void Flush(int p, int stream) {
    std::lock_guard<std::mutex> l(mu_);
    auto& o = out_[p][stream];
    while (!o.empty()) {
      in_[1 - p][stream].push_back(std::move(o.front()));
      o.pop_front();
      messages++;
    }
    cv_.notify_all();
  }
  // Blocks until a message is available at party p's inbox; returns a copy of it
  // removed from the queue. The tag must match.
  Msg ReadMsg(int p, int stream, const std::string& tag, bool quiet = false) {
    std::unique_lock<std::mutex> l(mu_);
    Wait(l, p, stream, tag);
    auto& q = in_[p][stream];
    Msg m = std::move(q.front());
    if (m.tag != tag || m.pos != 0) {
      Fail("desync: party " + std::to_string(p) + " expects `" + tag + "` but the peer sent `" +
           m.tag + "`");
    }
    q.pop_front();
    if (record && !quiet) events.push_back({p, "recv", stream, m.tag, m.bytes.size(), m.bytes, {}});
    return m;
  }
  void ReadRaw(int p, int stream, uint8_t* dst, size_t n) {
    std::unique_lock<std::mutex> l(mu_);
    std::vector<uint8_t> got;
    size_t k = 0;
    while (k < n) {
      Wait(l, p, stream, "raw");
      auto& q = in_[p][stream];
      Msg& m = q.front();
      if (m.tag != "raw") {
        Fail("desync: party " + std::to_string(p) + " reads raw bytes but the peer sent `" + m.tag + "`");
      }
      while (k < n && m.pos < m.bytes.size()) dst[k++] = m.bytes[m.pos++];
      if (m.pos >= m.bytes.size()) q.pop_front();
    }
    if (record) events.push_back({p, "recv", stream, "raw", n, std::vector<uint8_t>(dst, dst + n), {}});
  }
  // Marks a party as running no further protocol code.
  void Finish(int p) {
    std::lock_guard<std::mutex> l(mu_);
    done_[p] = true;
    cv_.notify_all();
  }
  void Begin() {
    std::lock_guard<std::mutex> l(mu_);
    done_[0] = done_[1] = false;
    dead_.clear();
  }
  // Number of messages that were written but never flushed / never read.
  size_t Unflushed() const {
    size_t n = 0;
    for (auto& m : out_) for (auto& s : m) n += s.second.size();
    return n;
  }
  size_t Unread() const {
    size_t n = 0;
    for (auto& m : in_) for (auto& s : m) n += s.second.size();
    return n;
  }
  // Drops everything in flight (after a failed run).
  void Reset() {
    std::lock_guard<std::mutex> l(mu_);
    for (auto& m : in_) m.clear();
    for (auto& m : out_) m.clear();
    dead_.clear();
    done_[0] = done_[1] = false;
  }
  int NewStream(int p) { return ++streams_[p]; }

 private:
  [[noreturn]] void Fail(const std::string& w) {
    if (dead_.empty()) dead_ = w;
    cv_.notify_all();
    throw ProtocolError(w);
  }
  bool Avail(int p, int stream) {
    auto it = in_[p].find(stream);
    return it != in_[p].end() && !it->second.empty();
  }
  void Wait(std::unique_lock<std::mutex>& l, int p, int stream, const std::string& what) {
    auto deadline = std::chrono::steady_clock::now() +
                    std::chrono::milliseconds(static_cast<int64_t>(timeout_s * 1000));
    for (;;) {
      if (Avail(p, stream)) { waiting_[p] = false; return; }
      if (!dead_.empty()) { waiting_[p] = false; throw ProtocolError("peer failed: " + dead_); }
      waiting_[p] = true;
      wait_stream_[p] = stream;
      int o = 1 - p;
      if (done_[o]) {
        waiting_[p] = false;
        Fail("starvation: party " + std::to_string(p) + " waits for `" + what +
             "` but the peer has returned");
      }
      if (waiting_[o] && !Avail(o, wait_stream_[o])) {
        waiting_[p] = false;
        Fail("deadlock: both parties wait; party " + std::to_string(p) + " for `" + what + "`");
      }
      if (cv_.wait_until(l, deadline) == std::cv_status::timeout) {
        waiting_[p] = false;
        Fail("timeout: party " + std::to_string(p) + " waits for `" + what + "`");
      }
    }
  }
  std::mutex mu_;
  std::condition_variable cv_;
  std::map<int, std::deque<Msg>> in_[2], out_[2];
  bool waiting_[2] = {false, false};
  bool done_[2] = {false, false};
  int wait_stream_[2] = {0, 0};
  int streams_[2] = {0, 0};
  std::string dead_;
};

}  // namespace verif
#endif
