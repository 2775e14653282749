// Offline stand-in for mpc_utils/comm_channel_emp_adapter.hpp. A direct adapter
// has a byte stream of its own; an indirect one shares the channel's stream.
#ifndef VERIF_SHIM_EMP_ADAPTER_H_
#define VERIF_SHIM_EMP_ADAPTER_H_
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"
namespace mpc_utils {
class CommChannelEMPAdapter {
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(comm_channel* c, bool direct = false) {
    if (!c) return InvalidArgumentError("channel must not be NULL");
    return std::unique_ptr<CommChannelEMPAdapter>(new CommChannelEMPAdapter(c, direct));
  }
  void send_data(const void* d, int64_t n) {
    if (n < 0) throw verif::ProtocolError("send_data with negative size");
    auto p = static_cast<const uint8_t*>(d);
    hub().Write(id(), stream_, {"raw", std::vector<uint8_t>(p, p + n), 0});
    dirty_ = true;
  }
  void recv_data(void* d, int64_t n) {
    if (n < 0) throw verif::ProtocolError("recv_data with negative size");
    if (dirty_) flush();
    hub().ReadRaw(id(), stream_, static_cast<uint8_t*>(d), n);
  }
  void flush() { hub().Flush(id(), stream_); dirty_ = false; }
  // For the emp-ot stand-in.
  verif::Hub& hub() { return *c_->verif_hub(); }
  int id() const { return c_->verif_side(); }
  int stream() const { return stream_; }
  void mark_dirty() { dirty_ = true; }
  bool dirty() const { return dirty_; }
 private:
  CommChannelEMPAdapter(comm_channel* c, bool direct) : c_(c) {
    stream_ = direct ? hub().NewStream(id()) : 0;
  }
  comm_channel* c_;
  int stream_;
  bool dirty_ = false;
};
}  // namespace mpc_utils
#endif
