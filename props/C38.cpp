#include "common.h"
// C38: the slide and interval states on their own, against ideal slides and swings in floating point.
static double unitOf(int64_t m, bool interval) {       // precision promised by the largest value: what is left of 30 bits
  if (!m) return 1;
  int s = 0;
  while (s < 30 && (1LL << s) < m) s++;
  s = 30 - s;
  if (interval && s) s--;
  return 1.0 / (double)(1LL << s);
}
static int64_t maxValue(Case &c) {
  if (c.chance(1, 6)) return 0;
  if (c.chance(1, 3)) { int64_t p = 1LL << c.range(0, 30); return std::max<int64_t>(1, p + c.range(-1, 1)); }
  return c.logRange(1, (1LL << 31) - 1);
}
static BKInt stepsOf(Case &c, bool large) {
  if (large && c.chance(1, 400)) return c.pick({(int)BK_STATE_MAX_STEPS, (int)BK_STATE_MAX_STEPS - 1, 1000000, (int)BK_STATE_MAX_STEPS + 5, 2147483647});
  return (BKInt)c.weighted({1, 3, 4, 3}) == 0 ? (BKInt)c.range(-3, 0) : c.chance(1, 3) ? (BKInt)c.range(1, 4) : (BKInt)c.logRange(1, 3000);
}
static void slide(Case &c) {
  int64_t m = maxValue(c), top = m ? m : 1 << 30;
  double unit = unitOf(m, false);
  auto value = [&]() -> BKInt { return (BKInt)c.edgy(-top, top, {0, 1, -1, top, -top, top / 2}); };
  BKSlideState s;
  memset(&s, 0xA5, sizeof s);
  BKSlideStateInit(&s, (BKInt)m);
  c.note("slide, largest value %lld", (long long)m);
  double v = 0; int64_t err = 0; BKInt end = 0; int n = 0, left = 0; bool changed = false, arrived = false, early = false;
  auto set = [&](BKInt e, BKInt k) {
    n = std::min(std::max(k, 0), (int)BK_STATE_MAX_STEPS); end = e;
    if (left) changed = true;
    if (n) left = n; else { left = 0; v = e; err = 0; }
  };
  auto check = [&](const char *w) {
    BKInt got = BKSlideStateGetValue(&s);
    double tol = err ? .5 + err * unit + 1e-6 : .5 + unit;
    if (!err && v == std::floor(v)) tol = 0;
    CHECK(c, std::fabs(got - v) <= tol, "%s: value %d, an even slide is at %.6f (%d steps to %d left)", w, got, v, left, end);
    return got;
  };
  check("fresh");
  int ops = (int)c.range(1, 14);
  for (int i = 0; i < ops; i++) {
    BKInt before = BKSlideStateGetValue(&s);
    switch (c.weighted({4, 4, 2, 2, 8})) {
      case 0: { BKInt e = value(), k = stepsOf(c, c.thorough || c.chance(1, 4)); c.note("value %d in %d steps", e, k); BKSlideStateSetValueAndSteps(&s, e, k); set(e, k); break; }
      case 1: { if (n > 20000) break; BKInt e = value(); c.note("value %d", e); BKSlideStateSetValue(&s, e); set(e, n); break; }
      case 2: { BKInt k = stepsOf(c, false); c.note("%d steps", k); BKSlideStateSetSteps(&s, k); set(end, k); break; }
      case 3: {
        bool e = c.flip(); c.note("halt%s", e ? " at the end" : ""); BKSlideStateHalt(&s, e);
        if (left) early = true;
        left = 0; if (e) { v = end; err = 0; }
        break;
      }
      default: {
        int64_t k = c.chance(1, 3) ? left : c.chance(1, 4) ? left + (int)c.range(0, 3) : c.logRange(1, 2 * std::max(left, 2));
        if (k > 20000 && k < left && c.chance(1, 2)) k = left;
        c.note("%lld steps made", (long long)k);
        for (int64_t j = 0; j < k; j++) {
          BKInt prev = k < 5000 || j > k - 50 || j < 50 ? BKSlideStateGetValue(&s) : 0; bool look = k < 5000 || j > k - 50 || j < 50;
          double from = v; bool sure = !err;
          BKSlideStateStep(&s);
          if (left) { v += (end - v) / left; err++; if (--left == 0) { v = end; err = 0; arrived = true; } }
          if (!look) continue;
          BKInt got = check("step");
          if (v != from || left) CHECK(c, got >= std::min(prev, end) && got <= std::max(prev, end), "value goes from %d to %d while it slides to %d", prev, got, end);
          if (v == from && sure) CHECK(c, got == prev, "value changes from %d to %d at rest", prev, got);
        }
        continue;
      }
    }
    BKInt after = check("set");
    if (left) CHECK(c, after == before, "starting a slide changes the value from %d to %d", before, after);
  }
  if (arrived && (changed || early)) c.nontrivial();
  c.label(m == 0 ? "slide: whole numbers" : unit < 1e-3 ? "slide: small values" : "slide: large values");
}
static void interval(Case &c) {
  int64_t m = maxValue(c), top = m ? m : 1 << 30;
  if (!m && c.chance(2, 3)) top = 200000;
  double unit = unitOf(m, true);
  auto value = [&]() -> BKInt { return (BKInt)c.edgy(-top, top, {0, 1, -1, top, -top, top / 2}); };
  BKIntervalState s;
  memset(&s, 0xA5, sizeof s);
  BKIntervalStateInit(&s, (BKInt)m);
  c.note("interval, largest value %lld", (long long)m);
  // where in the four phases it can be: a change of the steps keeps the phase and, to 1/256 or half a step, the offset in it
  std::vector<int64_t> at{0}; int64_t d = 0, n = 0; bool changed = false, passed = false, exact = true; int far = 0;
  auto ideal = [&](int64_t g) {
    if (!n) return 0.0;
    double f = (double)(g % n) / n;
    switch (g / n) { case 0: return d * f; case 1: return d * (1 - f); case 2: return -d * f; default: return -d * (1 - f); }
  };
  auto check = [&](const char *w) {
    BKInt got = BKIntervalStateGetValue(&s);
    CHECK(c, std::llabs(got) <= std::llabs(d), "%s: value %d exceeds %lld", w, got, (long long)d);
    std::vector<int64_t> ok;
    for (int64_t g : at) {
      double v = ideal(g), tol = exact && n && g % n == 0 ? 0 : .5 + (n ? (double)n * unit : 0) + 1e-6;
      if (std::fabs(got - v) <= tol) ok.push_back(g);
    }
    if (ok.empty()) c.fail("%s: value %d, a swing of %lld in %lld steps is at %.6f (phase %lld step %lld)%s", w, got, (long long)d, (long long)n, ideal(at[at.size() / 2]),
      (long long)(n ? at[at.size() / 2] / n : 0), (long long)(n ? at[at.size() / 2] % n : 0), at.size() > 1 ? " or nearby" : "");
    at = ok;
    return got;
  };
  auto set = [&](BKInt dd, BKInt kk) {
    int64_t k = std::min(std::max(kk, 0), (int)BK_STATE_MAX_STEPS);
    if (!k) { d = n = 0; at = {0}; exact = true; return; }
    if (k == n && dd == d) return;
    if (n) {
      std::set<int64_t> to;
      for (int64_t g : at) {
        int64_t p = g / n; double x = (double)(g % n) / n * k, h = .5 * k / n;
        int64_t lo = (int64_t)std::ceil(x - h - k / 256. - 1), hi = (int64_t)std::floor(x + h + 1e-9);
        for (int64_t y = std::max<int64_t>(lo, 0); y <= std::min(hi, k - 1); y++) to.insert(p * k + y);
      }
      at.assign(to.begin(), to.end());
      changed = true; exact = false;
    } else { at = {0}; exact = true; }
    d = dd; n = k;
  };
  check("fresh");
  int ops = (int)c.range(1, 12);
  for (int i = 0; i < ops; i++) {
    switch (c.weighted({4, 2, 2, 8, 1})) {
      case 0: {
        bool fresh = !n; BKInt e = value(), k = stepsOf(c, fresh && (c.thorough || c.chance(1, 4)));
        if (n > 20000) k = 0; c.note("delta %d, %d steps a phase", e, k); BKIntervalStateSetDeltaAndSteps(&s, e, k); set(e, k); break;
      }
      case 1: { if (n > 20000) break; BKInt e = value(); c.note("delta %d", e); BKIntervalStateSetDelta(&s, e); set(e, (BKInt)n); break; }
      case 2: { if (n > 20000) break; BKInt k = stepsOf(c, false); c.note("%d steps a phase", k); BKIntervalStateSetSteps(&s, k); set((BKInt)d, k); break; }
      case 4: {
        BKInt v = BKIntervalStateGetValue(&s); c.note("the same values"); BKIntervalStateSetDeltaAndSteps(&s, (BKInt)d, (BKInt)n);
        CHECK(c, BKIntervalStateGetValue(&s) == v, "setting the same values changes the value from %d to %d", v, BKIntervalStateGetValue(&s)); break;
      }
      default: {
        int64_t k = n > 20000 ? far++ < 4 ? n + c.range(-1, 1) : 1 : c.chance(1, 4) ? n + c.range(0, 3) : c.logRange(1, 5 * std::max<int64_t>(n, 2));
        c.note("%lld steps made", (long long)k);
        for (int64_t j = 0; j < k; j++) {
          bool look = at.size() > 1 || k < 20000 || j > k - 50 || j < 50 || (n && (at[0] % n < 3 || at[0] % n > n - 4));
          BKInt prev = look ? BKIntervalStateGetValue(&s) : 0; bool one = at.size() == 1; int64_t ph = n ? at[0] / n : 0;
          BKIntervalStateStep(&s);
          if (!look) { at[0] = (at[0] + 1) % (4 * n); if (at[0] % n == 0) passed = true; continue; }
          if (n) {
            for (auto &g : at) { g = (g + 1) % (4 * n); }
            if (at[0] % n == 0) passed = true;
          }
          // the start of a phase is exact again
          bool e0 = exact; exact = true;
          BKInt got = check("step");
          exact = e0 || (at.size() == 1 && n && at[0] % n == 0);
          if (one && n && at.size() == 1 && at[0] / n == ph) {
            bool up = (ph == 0 || ph == 3) == (d > 0);
            CHECK(c, up ? got >= prev : got <= prev, "value goes from %d to %d in phase %lld of a swing of %lld", prev, got, (long long)ph, (long long)d);
          }
        }
        continue;
      }
    }
    check("set");
  }
  if (passed && changed) c.nontrivial();
  c.label(m == 0 ? "interval: whole numbers" : unit < 1e-3 ? "interval: small values" : "interval: large values");
}
static void test(Case &c) { if (c.chance(1, 2)) interval(c); else slide(c); }
std::vector<vp::Property> vp_properties() {
  return {{"C38", "slide and interval states driven on their own: largest values from 0 to 2^31 - 1, values and steps changed at any point, halted, up to 2^23 steps, against ideal slides and swings; non-trivial: values changed or halted under way and an end or a peak reached",
    300000, 4000000, test, {}, "exploration", {}, 60}};
}
VP_MAIN
