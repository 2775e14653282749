#ifndef VERIF_SHIM_BENCHMARKER_H_
#define VERIF_SHIM_BENCHMARKER_H_
#include <chrono>
#include <map>
#include <string>
namespace mpc_utils {
class Benchmarker {
 public:
  using time_point = std::chrono::steady_clock::time_point;
  time_point StartTimer() { return std::chrono::steady_clock::now(); }
  void AddSecondsSinceStart(const std::string& k, time_point s) {
    m_[k] += std::chrono::duration<double>(std::chrono::steady_clock::now() - s).count();
  }
  void AddAmount(const std::string& k, double a) { m_[k] += a; }
  double Get(const std::string& k) { return m_[k]; }
 private:
  std::map<std::string, double> m_;
};
}  // namespace mpc_utils
#endif
