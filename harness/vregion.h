#ifndef VERIF_HARNESS_VREGION_H_
#define VERIF_HARNESS_VREGION_H_
#include <omp.h>
#include <memory>
#include <utility>
namespace vh {
// Runs f as it is, inside a parallel region of the caller (where a region of the library has
// one thread, whatever the maximum is), or where teams may be smaller than asked for.
template <typename F> void In(int region, F f) {
  if (region == 1) {
#pragma omp parallel num_threads(2)
#pragma omp master
    f();
  } else if (region == 2) {
    int l = omp_get_max_active_levels();
    omp_set_max_active_levels(0);
    f();
    omp_set_max_active_levels(l);
  } else if (region == 3) {
    omp_set_dynamic(1);
    f();
    omp_set_dynamic(0);
  } else {
    f();
  }
}
// The value of f, called likewise.
template <typename F> auto GetIn(int region, F f) -> decltype(f()) {
  std::unique_ptr<decltype(f())> r;
  In(region, [&] { r.reset(new decltype(f())(f())); });
  return std::move(*r);
}
}  // namespace vh
#endif
