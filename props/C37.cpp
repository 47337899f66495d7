#include "alt.h"
#include <atomic>
#include <thread>
// C37: threads which use objects of their own do not interfere. Built with ThreadSanitizer, so that an access to
// anything shared is reported whatever the schedule was; the results have to be those of rendering one after another.
static void test(Case &c) {
  int n = c.range(2, 4);
  std::vector<Prog> g;
  for (int i = 0; i < n; i++) {
    g.push_back(i && c.chance(1, 4) ? g[0] : genProg(c));
    c.note("-- thread %d", i); describeProg(c, g[i]);
  }
  bool warm = c.flip();   // whether the library was in use before the threads start
  std::vector<Seen> alone(n), together(n);
  if (warm) for (int i = 0; i < n; i++) altObserve(g[i], alone[i]);
  {
    std::atomic<int> ready(0);
    std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { ready++; while (ready.load(std::memory_order_relaxed) < n) {} altObserve(g[i], together[i]); });
    for (auto &x : t) x.join();
  }
  if (!warm) for (int i = 0; i < n; i++) altObserve(g[i], alone[i]);
  size_t least = SIZE_MAX;
  for (int i = 0; i < n; i++) {
    auto &a = alone[i], &b = together[i];
    size_t k = 0, nz = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
    for (auto x : a) nz += x != 0;
    least = std::min(least, nz);
    CHECK(c, a.size() == b.size() && k == a.size(), "thread %d of %d: observation %zu of %zu (%zu) is %lld, alone %lld", i, n, k, b.size(), a.size(), (long long)(k < b.size() ? b[k] : 0), (long long)(k < a.size() ? a[k] : 0));
  }
  c.label(warm ? "library used before" : "first use in threads");
  if (least > 500) c.nontrivial();
}
std::vector<vp::Property> vp_properties() {
  return {{"C37", "two to four random programs (scene with operations, generate-to-time, WAVE file, raw data, note periods) run in threads of their own under ThreadSanitizer against running them one after another; non-trivial: each has over 500 observations which differ from zero", 6000, 60000, test, {}}};
}
VP_MAIN
