// Records every Vector-OLE expansion performed by the calling thread.
#ifndef VERIF_HARNESS_EXPANSION_OBSERVER_H_
#define VERIF_HARNESS_EXPANSION_OBSERVER_H_
#include <functional>
#include <string>
#include <vector>
#include "vh.h"
namespace vh {
struct Expansion {
  int64_t rows = 0, cols = 0;
  std::vector<std::string> su, sv, mu, mv;      // seeds (receiver: su is w), masks
  std::vector<std::vector<std::pair<int64_t, std::string>>> code;  // per column
  std::vector<int64_t> idx;
  std::vector<std::string> y, ou, ov;           // outputs (receiver: ou is w)
  std::string delta;
};
inline std::vector<Expansion>*& Recorder() { static thread_local std::vector<Expansion>* r = nullptr; return r; }
template <typename V> std::vector<std::string> ObsVec(const V& v) {
  using T = typename std::decay<decltype(v[0])>::type;
  std::vector<std::string> r;
  for (int64_t i = 0; i < static_cast<int64_t>(v.size()); i++) { T x = v[i]; r.push_back(TT<T>::H(x)); }
  return r;
}
template <typename M> void ObsCode(const M& m, Expansion* e) {
  using T = typename std::decay<decltype(m.coeff(0, 0))>::type;
  e->rows = m.rows();
  e->cols = m.cols();
  e->code.resize(m.cols());
  for (int64_t c = 0; c < m.cols(); c++)
    for (typename M::InnerIterator it(m, c); it; ++it) { T x = it.value(); e->code[c].push_back({it.row(), TT<T>::H(x)}); }
}
template <typename S, typename M, typename I, typename Y, typename U, typename V>
void SenderExpanded(const S& seed, const S& mask, const M& code, const I& idx, const Y& y, const U& u, const V& v) {
  if (!Recorder()) return;
  Expansion e;
  e.su = ObsVec(seed.u); e.sv = ObsVec(seed.v); e.mu = ObsVec(mask.u); e.mv = ObsVec(mask.v);
  ObsCode(code, &e);
  for (auto i : idx) e.idx.push_back(i);
  e.y = ObsVec(y); e.ou = ObsVec(u); e.ov = ObsVec(v);
  Recorder()->push_back(std::move(e));
}
template <typename S, typename M, typename W>
void ReceiverExpanded(const S& seed, const S& mask, const M& code, const W& w) {
  if (!Recorder()) return;
  using T = typename std::decay<decltype(seed.w[0])>::type;
  Expansion e;
  e.su = ObsVec(seed.w); e.mu = ObsVec(mask.w);
  ObsCode(code, &e);
  e.ou = ObsVec(w);
  T d = mask.delta;
  e.delta = TT<T>::H(d);
  Recorder()->push_back(std::move(e));
}
}  // namespace vh
#define DVO_VERIF_SENDER_EXPANDED(...) ::vh::SenderExpanded(__VA_ARGS__)
#define DVO_VERIF_RECEIVER_EXPANDED(...) ::vh::ReceiverExpanded(__VA_ARGS__)
#endif
