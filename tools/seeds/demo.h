// Common parts of the demonstrations.
#include <omp.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "mpc_utils/testing/comm_channel_test_helper.hpp"
#define CHECK(x)                                                   \
  do {                                                             \
    if (!(x)) {                                                    \
      fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x);       \
      _exit(1);                                                    \
    }                                                              \
  } while (0)
// Runs both parties' programs at the same time.
inline void Pair(std::function<void()> a, std::function<void()> b) {
  auto guard = [](std::function<void()> f) {
    try { f(); } catch (std::exception& e) { fprintf(stderr, "FAILED: %s\n", e.what()); _exit(1); }
  };
  std::thread t([&] { guard(b); });
  guard(a);
  t.join();
}
