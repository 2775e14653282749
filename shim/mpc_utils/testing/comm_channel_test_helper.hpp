#ifndef VERIF_SHIM_TEST_HELPER_H_
#define VERIF_SHIM_TEST_HELPER_H_
#include "mpc_utils/comm_channel.hpp"
namespace mpc_utils { namespace testing {
class CommChannelTestHelper {
 public:
  explicit CommChannelTestHelper(bool measured = false)
      : hub_(std::make_shared<verif::Hub>()), c0_(hub_, 0, measured), c1_(hub_, 1, measured) {}
  comm_channel* GetChannel(int i) { return i == 0 ? &c0_ : &c1_; }
  verif::Hub& hub() { return *hub_; }
 private:
  std::shared_ptr<verif::Hub> hub_;
  comm_channel c0_, c1_;
};
}}  // namespace mpc_utils::testing
#endif
