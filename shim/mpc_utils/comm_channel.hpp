// Offline stand-in for mpc_utils/comm_channel.hpp on top of verif::Hub.
#ifndef VERIF_SHIM_COMM_CHANNEL_H_
#define VERIF_SHIM_COMM_CHANNEL_H_
#include <memory>
#include <vector>
#include <iostream>
#include <thread>
#include "verif/codec.h"
#include "verif/hub.h"
namespace mpc_utils {
class comm_channel {
 public:
  // `side` is 0 or 1; the parties' identifiers may be any two numbers.
  comm_channel(std::shared_ptr<verif::Hub> hub, int side, bool measured) : comm_channel(std::move(hub), side, measured, side, 1 - side) {}
  comm_channel(std::shared_ptr<verif::Hub> hub, int side, bool measured, int id, int peer)
      : hub_(std::move(hub)), id_(side), measured_(measured), own_(id), peer_(peer) {}
  template <typename T> void send(const T& x) {
    verif::Msg m;
    m.tag = "obj:" + verif::Codec<T>::Tag();
    verif::Codec<T>::Enc(m.bytes, x);
    hub_->Write(id_, 0, std::move(m));
  }
  template <typename T> void recv(T& x) {
    verif::Msg m = hub_->ReadMsg(id_, 0, "obj:" + verif::Codec<T>::Tag());
    verif::Reader r(m.bytes);
    verif::Codec<T>::Dec(r, x);
  }
  template <typename T> void send_recv(const T& out, T& in) { send(out); flush(); recv(in); }
  void flush() { hub_->Flush(id_, 0); }
  void sync() {
    hub_->WriteQuiet(id_, 0, {"sync", {}, 0});
    flush();
    hub_->ReadMsg(id_, 0, "sync", true);
  }
  int get_id() const { return own_; }
  int get_peer_id() const { return peer_; }
  int verif_side() const { return id_; }
  bool is_measured() const { return measured_; }
  uint64_t get_num_bytes_sent() const { return hub_->bytes_sent[id_]; }
  uint64_t get_num_bytes_received() const { return hub_->bytes_sent[1 - id_]; }
  const std::shared_ptr<verif::Hub>& verif_hub() const { return hub_; }
 private:
  std::shared_ptr<verif::Hub> hub_;
  int id_;
  bool measured_;
  int own_, peer_;
};
}  // namespace mpc_utils
using mpc_utils::comm_channel;
#endif
