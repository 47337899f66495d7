#include "common.h"
// C17: clocks and dividers tick at exactly the configured times.
// A discrete event model of all clocks and dividers predicts every callback; the real callbacks are compared with it.
enum { A_NONE, A_NEXT, A_DIV, A_PERIOD, A_RESET, A_ATTACH, A_DETACH, A_DISPOSE, A_DATTACH, A_DDETACH, A_DDISPOSE, A_DRESET, A_TRACK };
struct Act { int kind = A_NONE, a = 0, b = 0; int64_t t = 0; };
struct ClockDef { int64_t period; bool alloc, callback; std::vector<std::vector<Act>> script; };
struct DivDef { unsigned count; bool alloc, callback; std::vector<std::vector<Act>> script; };
struct Entry { int kind, idx; int64_t time; unsigned div; int64_t next; /* next tick as told to the callback, from now */ };
struct Setup { std::vector<ClockDef> clocks; std::vector<DivDef> divs; int64_t master = 0; };

static std::string actStr(const Act &a) {
  char b[160];
  double f = a.t / (double)FU;
  switch (a.kind) {
    case A_NEXT: snprintf(b, sizeof b, "next tick in %.6f", f); break;
    case A_DIV: snprintf(b, sizeof b, "divider := %d", a.a); break;
    case A_PERIOD: snprintf(b, sizeof b, "period of clock %d := %.6f", a.a, f); break;
    case A_RESET: snprintf(b, sizeof b, "reset clock %d", a.a); break;
    case A_ATTACH: snprintf(b, sizeof b, "attach clock %d %s", a.a, a.b == 0 ? "last" : a.b == 1 ? "first" : ("before clock " + std::to_string(a.b - 2)).c_str()); break;
    case A_DETACH: snprintf(b, sizeof b, "detach clock %d", a.a); break;
    case A_DISPOSE: snprintf(b, sizeof b, "dispose clock %d", a.a); break;
    case A_DATTACH: snprintf(b, sizeof b, "attach divider %d to %s", a.a, a.b == 0 ? "effect" : a.b == 1 ? "beat" : ("clock " + std::to_string(a.b - 2)).c_str()); break;
    case A_DDETACH: snprintf(b, sizeof b, "detach divider %d", a.a); break;
    case A_DDISPOSE: snprintf(b, sizeof b, "dispose divider %d", a.a); break;
    case A_DRESET: snprintf(b, sizeof b, "reset divider %d", a.a); break;
    case A_TRACK: snprintf(b, sizeof b, "attach a track"); break;
    default: return "-";
  }
  return b;
}

// ---- reference: clocks 0..K-1 own, K = master. groups 0 effect, 1 beat, 2.. own clocks
struct Model {
  const Setup &s;
  int K;
  struct C { int64_t period, next = 0; bool attached = false, dead = false; size_t calls = 0; };
  struct D { unsigned n; int counter = 0; int group = -1; bool dead = false; size_t calls = 0; };
  std::vector<C> clocks; std::vector<D> divs;
  std::vector<int> order; std::vector<std::vector<int>> groups;
  int64_t now = 0; bool again = false;
  std::vector<Entry> log;
  Model(const Setup &st) : s(st), K((int)st.clocks.size()) {
    for (auto &c : st.clocks) { C x; x.period = c.period; clocks.push_back(x); }
    C m; m.period = st.master; clocks.push_back(m);
    for (auto &d : st.divs) { D x; x.n = d.count < 1 ? 1 : d.count; divs.push_back(x); }
    divs.push_back(D());     // stands for those of the track: called without effect, but takes a place among the others
    divs.back().n = 1;
    groups.resize(2 + K);
  }
  std::vector<int> groupsOf(int c) { if (c == K) return {1, 0}; return {2 + c}; }
  void resetDiv(int d) { divs[d].counter = 0; }
  void restart(int c) {
    // the master clock has no dividers of its own: effect and beat dividers keep counting
    if (c != K) for (int d : groups[2 + c]) divs[d].counter = 0;
    clocks[c].next = now; again = true;
  }
  void attach(int c, int where) {
    C &k = clocks[c];
    if (k.dead || k.attached) return;
    size_t at = order.size();
    if (where == 1) at = 0;
    else if (where >= 2) {
      size_t i = 0; for (; i < order.size(); i++) if (order[i] == where - 2) break;
      if (i == order.size()) return;                  // not in this context: refused
      at = i;
    }
    order.insert(order.begin() + at, c);
    k.attached = true; restart(c);
  }
  void detach(int c) {
    C &k = clocks[c];
    if (!k.attached) return;
    order.erase(std::find(order.begin(), order.end(), c));
    k.attached = false;
    for (int d : groups[2 + c]) divs[d].counter = 0;
    again = true;
  }
  int curGroup = -1, cur = -1, cursor = -1;   // dividers being called: group, the one called, the one after it
  void ddetach(int d) {
    D &x = divs[d];
    if (x.group < 0) return;
    auto &g = groups[x.group];
    size_t i = std::find(g.begin(), g.end(), d) - g.begin();
    g.erase(g.begin() + i);
    if (x.group == curGroup && cursor == d) cursor = i < g.size() ? g[i] : -1;
    x.group = -1;
  }
  void act(const Act &a, int64_t *next, unsigned *div) {
    switch (a.kind) {
      case A_NEXT: if (next) *next = now + a.t; break;
      case A_DIV: if (div) *div = (unsigned)a.a; break;
      case A_PERIOD: if (!clocks[a.a].dead) clocks[a.a].period = a.t; break;
      case A_RESET: if (clocks[a.a].dead) break; if (clocks[a.a].attached) restart(a.a); else for (int d : groups[2 + a.a]) divs[d].counter = 0; break;
      case A_ATTACH: attach(a.a, a.b); break;
      case A_DETACH: detach(a.a); break;
      case A_DISPOSE: if (clocks[a.a].dead) break; detach(a.a); while (!groups[2 + a.a].empty()) ddetach(groups[2 + a.a][0]); clocks[a.a].dead = true; break;
      case A_DATTACH: {
        D &x = divs[a.a];
        if (x.dead || (a.b >= 2 && clocks[a.b - 2].dead)) break;
        if (x.group < 0) { groups[a.b].push_back(a.a); x.group = a.b; }
        if (a.b < 2) attach(K, order.empty() ? 0 : 1);
        break;
      }
      case A_DDETACH: ddetach(a.a); break;
      case A_DDISPOSE: if (!divs[a.a].dead) { ddetach(a.a); divs[a.a].dead = true; } break;
      case A_DRESET: if (!divs[a.a].dead) resetDiv(a.a); break;
      case A_TRACK: if (divs.back().group < 0) { divs.back().group = 0; groups[0].push_back((int)divs.size() - 1); } attach(K, order.empty() ? 0 : 1); break;
    }
  }
  void tickGroup(int g, int64_t *next) {
    auto &l = groups[g];
    for (int d = l.empty() ? -1 : l[0]; d >= 0;) {
      size_t at = std::find(l.begin(), l.end(), d) - l.begin();
      curGroup = g; cur = d; cursor = at + 1 < l.size() ? l[at + 1] : -1;
      if (divs[d].counter <= 0) {
        if (d < (int)s.divs.size() && s.divs[d].callback) {
          unsigned n = divs[d].n;
          log.push_back({1, d, now, n, *next - now});
          auto &sc = s.divs[d].script;
          if (!sc.empty()) for (auto &a : sc[divs[d].calls % sc.size()]) act(a, next, &n);
          divs[d].calls++;
          divs[d].n = (int)n < 1 ? 1 : n;
        }
        divs[d].counter = divs[d].n;
      }
      divs[d].counter--;
      at = std::find(l.begin(), l.end(), d) - l.begin();
      d = at < l.size() ? (at + 1 < l.size() ? l[at + 1] : -1) : cursor;
    }
    curGroup = -1;
  }
  void tick(int c) {
    int64_t next = now;
    bool was = clocks[c].attached;
    if (c < K && s.clocks[c].callback) {
      log.push_back({0, c, now, 0, next - now});
      auto &sc = s.clocks[c].script;
      if (!sc.empty()) for (auto &a : sc[clocks[c].calls % sc.size()]) act(a, &next, nullptr);
      clocks[c].calls++;
    }
    (void)was;
    for (int g : groupsOf(c)) tickGroup(g, &next);
    if (next > now) { clocks[c].period = next - now; clocks[c].next = next; }
    else clocks[c].next = now + clocks[c].period;
  }
  size_t limit = 0;
  // run all ticks before `end`
  void runTo(int64_t end) {
    if (order.empty()) { now = std::max(now, end); return; }
    while (now < end) {
      int64_t min;
      do {
        again = false;
        for (size_t i = 0; i < order.size(); i++) {
          int c = order[i];
          if (clocks[c].next == now) { tick(c); i = std::find(order.begin(), order.end(), c) - order.begin(); if (i == order.size()) { again = true; break; } }
        }
        if (log.size() > 60000) throw vp::Discard{};
      } while (again);
      if (order.empty()) { now = std::max(now, end); return; }
      min = INT64_MAX;
      for (int c : order) min = std::min(min, clocks[c].next);
      now += std::min(min - now, (int64_t)0x7fffffff / 3);
    }
  }
};

// ---- the real thing
struct Real {
  const Setup &s;
  BKContext *ctx = nullptr; Raw<BKContext> raw; BKUnit *unit = nullptr; BKTrack *track = nullptr;
  struct CB { Real *r; int kind, idx; size_t calls = 0; };
  std::vector<BKClock *> clocks; std::vector<BKDivider *> divs;
  std::vector<std::unique_ptr<CB>> ccb, dcb;
  std::vector<Entry> log;
  std::string err;
  Real(const Setup &st) : s(st) {}
  int64_t time() { BKTime t; if (BKGetPtr(ctx, BK_TIME, &t, sizeof t) != 0) err = "time not readable"; return t; }
  static BKEnum call(BKCallbackInfo *info, void *u) {
    CB *cb = (CB *)u; Real *r = cb->r;
    if (cb->kind == 0) {
      if (info->event != BK_EVENT_CLOCK) r->err = "wrong event in a clock callback";
      if (info->object != r->clocks[cb->idx]) r->err = "wrong object in a clock callback";
    } else if (info->event != BK_EVENT_DIVIDER) r->err = "wrong event in a divider callback";
    int64_t at = r->time();
    r->log.push_back({cb->kind, cb->idx, at, cb->kind ? infoDivider(info) : 0, infoNext(info) - at});
    auto &sc = cb->kind ? r->s.divs[cb->idx].script : r->s.clocks[cb->idx].script;
    size_t n = cb->calls++;
    if (!sc.empty()) for (auto &a : sc[n % sc.size()]) r->act(a, info, cb->kind);
    return 0;
  }
  void setup(Case &c, int rate, int nch) {
    ctx = raw.p;
    CHECK(c, BKContextInit(ctx, nch, rate) == 0, "context");
    unit = (BKUnit *)malloc(sizeof *unit);
    CHECK(c, BKUnitInit(unit, BK_SQUARE) == 0 && BKUnitAttach(unit, ctx) == 0, "unit");
    if (s.master) { BKTime t = s.master; CHECK(c, BKSetPtr(ctx, BK_CLOCK_PERIOD, &t, sizeof t) == 0, "master period refused"); }
    for (size_t i = 0; i < s.clocks.size(); i++) {
      ccb.emplace_back(new CB{this, 0, (int)i});
      BKCallback cb = {call, ccb[i].get()};
      BKClock *k = nullptr;
      BKCallback *p = s.clocks[i].callback ? &cb : nullptr;
      if (s.clocks[i].alloc) CHECK(c, BKClockAlloc(&k, s.clocks[i].period, p) == 0, "clock");
      else { k = (BKClock *)malloc(sizeof *k); CHECK(c, BKClockInit(k, s.clocks[i].period, p) == 0, "clock"); }
      memset(&cb, 0xdd, sizeof cb);
      clocks.push_back(k);
    }
    for (size_t i = 0; i < s.divs.size(); i++) {
      dcb.emplace_back(new CB{this, 1, (int)i});
      BKCallback cb = {call, dcb[i].get()};
      BKDivider *d = nullptr;
      BKCallback *p = s.divs[i].callback ? &cb : nullptr;
      if (s.divs[i].alloc) CHECK(c, BKDividerAlloc(&d, s.divs[i].count, p) == 0, "divider");
      else { d = (BKDivider *)malloc(sizeof *d); CHECK(c, BKDividerInit(d, s.divs[i].count, p) == 0, "divider"); }
      memset(&cb, 0xdd, sizeof cb);
      divs.push_back(d);
    }
  }
  void killClock(int i) { if (!clocks[i]) return; BKDispose(clocks[i]); if (!s.clocks[i].alloc) { memset(clocks[i], 0xdd, sizeof(BKClock)); free(clocks[i]); } clocks[i] = nullptr; }
  void killDiv(int i) { if (!divs[i]) return; BKDispose(divs[i]); if (!s.divs[i].alloc) { memset(divs[i], 0xdd, sizeof(BKDivider)); free(divs[i]); } divs[i] = nullptr; }
  void expect(const char *what, int r, bool ok) { if ((r == 0) != ok && err.empty()) err = std::string(what) + " returned " + std::to_string(r); }
  void attachTrack() {
    if (track) return;
    if (BKTrackAlloc(&track, BK_SQUARE) != 0 || BKTrackAttach(track, ctx) != 0) err = "track";
  }
  void act(const Act &a, BKCallbackInfo *info, int kind) {
    switch (a.kind) {
      case A_NEXT: if (info) infoSetNext(info, time() + a.t); break;
      case A_DIV: if (info && kind == 1) infoSetDivider(info, (BKUInt)a.a); break;
      case A_PERIOD: if (a.a < (int)clocks.size()) { if (clocks[a.a]) BKClockSetPeriod(clocks[a.a], a.t); } else { BKTime t = a.t; expect("BK_CLOCK_PERIOD", BKSetPtr(ctx, BK_CLOCK_PERIOD, &t, sizeof t), true); } break;
      case A_RESET: if (clocks[a.a]) BKClockReset(clocks[a.a]); break;
      case A_ATTACH: {
        if (!clocks[a.a]) break;
        BKClock *before = a.b == 0 ? nullptr : a.b == 1 ? (BKClock *)BK_FIRST_ELEMENT_PTR : clocks[a.b - 2];
        if (a.b >= 2 && !before) break;
        BKClockAttach(clocks[a.a], ctx, before);
        break;
      }
      case A_DETACH: if (clocks[a.a]) BKClockDetach(clocks[a.a]); break;
      case A_DISPOSE: killClock(a.a); break;
      case A_DATTACH:
        if (!divs[a.a]) break;
        if (a.b < 2) BKContextAttachDivider(ctx, divs[a.a], a.b == 0 ? BK_CLOCK_TYPE_EFFECT : BK_CLOCK_TYPE_BEAT);
        else if (clocks[a.b - 2]) BKDividerAttachToClock(divs[a.a], clocks[a.b - 2]);
        break;
      case A_DDETACH: if (divs[a.a]) BKDividerDetach(divs[a.a]); break;
      case A_DDISPOSE: killDiv(a.a); break;
      case A_DRESET: if (divs[a.a]) BKDividerReset(divs[a.a]); break;
      case A_TRACK: attachTrack(); break;
    }
  }
  ~Real() {}
  void finish() {
    for (size_t i = 0; i < divs.size(); i += 2) killDiv((int)i);
    for (size_t i = 0; i < clocks.size(); i++) killClock((int)i);
    for (size_t i = 1; i < divs.size(); i += 2) killDiv((int)i);
    BKDispose(unit); free(unit); if (track) BKDispose(track);
    BKDispose(ctx);
  }
};

static int64_t genPeriod(Case &c, bool small) {
  switch (c.weighted({4, 3, 2, 2, 1})) {
    case 0: return c.range(3, small ? 60 : 500) * (int64_t)FU;
    case 1: return c.range(3, small ? 60 : 500) * (int64_t)FU + c.range(1, FU - 1);
    case 2: return (int64_t)(c.logRange(2, 3000) * FU) + c.range(0, FU - 1);
    case 3: return c.pick({(int64_t)0x7fffffff / 3, (int64_t)0x7fffffff / 3 + 1, (int64_t)0x7fffffff / 3 - 1, (int64_t)1024 * FU, (int64_t)183 * FU + FU / 4 * 3, (int64_t)5000 * FU + 1});
    default: return c.range(1, 3) * (int64_t)FU + c.range(0, FU - 1);
  }
}
// self: index of the clock or divider whose callback runs the action, -1: from outside. inClock: its clock
static Act genAct(Case &c, const Setup &s, int kind, int self) {
  int K = (int)s.clocks.size(), D = (int)s.divs.size();
  Act a;
  bool inside = kind >= 0;
  int k = inside ? (kind == 0 ? c.weighted({10, 6, 0, 3, 2, 3, 3, 1, 2, 2, 1, 1, 1}) : c.weighted({10, 2, 6, 2, 1, 1, 1, 0, 2, 3, 1, 1, 1}))
                 : c.weighted({1, 0, 0, 4, 3, 6, 4, 1, 6, 4, 1, 2, 1});
  a.kind = k;
  if (D == 0 && k >= A_DATTACH && k != A_TRACK) return Act();
  switch (k) {
    case A_NEXT: a.t = genPeriod(c, true); if (c.chance(1, 8)) a.t = -c.range(0, 5 * FU); break;
    case A_DIV: a.a = (int)c.edgy(1, 7, {0, 1, 2}); break;
    case A_PERIOD: a.a = c.draw(K + 1); a.t = genPeriod(c, true); break;
    case A_RESET: case A_DISPOSE: case A_DETACH: a.a = c.draw(K); break;
    case A_ATTACH: a.a = c.draw(K); a.b = c.weighted({2, 1, 2}); if (a.b == 2) a.b = 2 + c.draw(K); break;
    case A_DATTACH: a.a = c.draw(D); a.b = c.draw(K + 2); break;
    case A_DDETACH: case A_DDISPOSE: case A_DRESET: a.a = c.draw(D); break;
    default: break;
  }
  if (inside) {
    // an object may not dispose itself, or the clock that is calling it, during its callback
    if (k == A_DISPOSE && (kind == 1 || a.a == self)) return Act();
    if (k == A_DDISPOSE && kind == 1 && a.a == self) return Act();
    // a divider does not attach itself again in its callback, nor do two dividers move each other
    if (k == A_DATTACH && kind == 1 && a.a <= self) return Act();
    // resetting the clock that is ticking is not judged, nor detaching it while its dividers are still to be called
    if (k == A_RESET && (kind == 1 || a.a == self)) return Act();
    if (k == A_DETACH && kind == 1) return Act();
    if (k == A_DRESET && kind == 1 && a.a == self) return Act();
  }
  return a;
}

static void test(Case &c) {
  Setup s;
  int K = (int)c.range(1, 4), D = (int)c.range(0, 5);
  int rate = c.pick({44100, 16000, 48000, 96000, 22050});
  s.master = c.chance(1, 2) ? genPeriod(c, true) : 0;
  s.clocks.resize(K); s.divs.resize(D);
  for (auto &k : s.clocks) { k.period = genPeriod(c, false); k.alloc = c.flip(); k.callback = !c.chance(1, 8); }
  for (auto &d : s.divs) { d.count = (unsigned)c.edgy(1, 9, {0, 1, 2}); d.alloc = c.flip(); d.callback = !c.chance(1, 10); }
  // dividers of many thousand ticks on a clock of about one frame: only the dividers have callbacks
  bool slow = c.chance(1, 150);
  if (slow) {
    if (D == 0) { D = 1; s.divs.resize(1); s.divs[0].alloc = c.flip(); }
    for (int i = 0; i < K; i++) { s.clocks[i].callback = false; s.clocks[i].period = i ? c.range(3000, 20000) * (int64_t)FU : c.range(FU, 2 * (int64_t)FU); }
    for (auto &d : s.divs) { d.count = (unsigned)c.edgy(1000, 140000, {32767, 32768, 32769, 65535, 65536, 65537}); d.callback = true; }
  }
  bool scripts = !slow && !c.chance(1, 3);
  if (scripts) {
    for (int i = 0; i < K; i++) { int n = (int)c.range(0, 4); for (int j = 0; j < n; j++) { std::vector<Act> v; int m = (int)c.range(0, 2); for (int q = 0; q < m; q++) { Act a = genAct(c, s, 0, i); if (a.kind) v.push_back(a); } s.clocks[i].script.push_back(v); } }
    for (int i = 0; i < D; i++) { int n = (int)c.range(0, 4); for (int j = 0; j < n; j++) { std::vector<Act> v; int m = (int)c.range(0, 2); for (int q = 0; q < m; q++) { Act a = genAct(c, s, 1, i); if (a.kind) v.push_back(a); } s.divs[i].script.push_back(v); } }
  }
  // a clock that detaches itself in its callback has no dividers: their calls for that tick are not judged;
  // two clocks restarting each other at one moment never end
  std::vector<bool> selfDetach(K, false), clockResets(K, false);
  auto eachAct = [&](auto f) { for (int i = 0; i < K; i++) for (auto &v : s.clocks[i].script) for (auto &a : v) f(0, i, a); for (int i = 0; i < D; i++) for (auto &v : s.divs[i].script) for (auto &a : v) f(1, i, a); };
  eachAct([&](int kind, int i, Act &a) { if (kind == 0 && a.kind == A_DETACH && a.a == i) selfDetach[i] = true; });
  // restarting (reset, detach + attach) other clocks: only towards a higher index, so that it ends
  eachAct([&](int kind, int i, Act &a) {
    if (a.kind == A_RESET || a.kind == A_ATTACH) { if (kind == 1 || a.a <= i) a = Act(); }
    if (a.kind == A_DATTACH && a.b >= 2 && selfDetach[a.b - 2]) a = Act();
  });
  std::vector<std::pair<int64_t, std::vector<Act>>> steps;
  auto outAct = [&](std::vector<Act> &v) { Act a = genAct(c, s, -1, -1); if (a.kind == A_DATTACH && a.b >= 2 && selfDetach[a.b - 2]) return; if (a.kind) v.push_back(a); };
  std::vector<Act> first;
  for (int i = 0; i < K; i++) if (!c.chance(1, 5)) { Act a; a.kind = A_ATTACH; a.a = i; a.b = c.weighted({3, 1}); first.push_back(a); }
  for (int i = 0; i < D; i++) if (!c.chance(1, 5)) { Act a; a.kind = A_DATTACH; a.a = i; a.b = c.draw(K + 2); if (a.b >= 2 && selfDetach[a.b - 2]) continue; first.push_back(a); }
  if (slow) for (auto &a : first) if (a.kind == A_DATTACH) a.b = 2;   // most on the fast clock
  bool longRun = slow || c.chance(1, c.thorough ? 6 : 40);
  int64_t total = slow ? c.range(100000, 400000) : longRun ? c.range(20000, c.thorough ? 400000 : 60000) : c.logRange(20, 9000);
  for (int64_t done = 0; done < total;) {
    std::vector<Act> v;
    if (done == 0) v = first;
    if (c.chance(1, slow ? 8 : 3)) { int m = (int)c.range(1, 3); for (int q = 0; q < m; q++) outAct(v); }
    int64_t n = longRun ? c.logRange(1, total) : c.weighted({3, 1, 1}) == 0 ? c.logRange(1, std::min<int64_t>(total, 3000)) : c.pick({(int64_t)1, (int64_t)1023, (int64_t)1024, (int64_t)1025, (int64_t)4096});
    n = std::min(n, total - done);
    steps.push_back({n, v}); done += n;
    if (steps.size() > 60) { steps.back().first += total - done; break; }
  }
  for (int i = 0; i < K; i++) { c.note("clock %d: period %.6f%s%s", i, s.clocks[i].period / (double)FU, s.clocks[i].callback ? "" : " no callback", s.clocks[i].alloc ? " alloc" : ""); int j = 0; for (auto &v : s.clocks[i].script) { for (auto &a : v) c.note("  call %d: %s", j, actStr(a).c_str()); j++; } }
  for (int i = 0; i < D; i++) { c.note("divider %d: %u%s%s", i, s.divs[i].count, s.divs[i].callback ? "" : " no callback", s.divs[i].alloc ? " alloc" : ""); int j = 0; for (auto &v : s.divs[i].script) { for (auto &a : v) c.note("  call %d: %s", j, actStr(a).c_str()); j++; } }
  c.note("master period %.6f (0: default)", s.master / (double)FU);
  for (auto &st : steps) { for (auto &a : st.second) c.note("%s", actStr(a).c_str()); c.note("generate %ld", (long)st.first); }
  Setup ms = s;
  std::unique_ptr<Real> rp(new Real(s));
  Real &r = *rp;
  r.setup(c, rate, 1);
  if (!ms.master) { BKTime t; CHECK(c, BKGetPtr(r.ctx, BK_CLOCK_PERIOD, &t, sizeof t) == 0, "period"); ms.master = t; CHECK(c, fabs(t / (double)FU - rate / 240.0) < 1e-3, "default clock period %.6f", t / (double)FU); }
  Model m(ms);
  int64_t pos = 0;
  size_t seen = 0;
  Frames out;
  size_t drifted = 0;
  for (size_t i = 0; i < steps.size(); i++) {
    for (auto &a : steps[i].second) { m.act(a, nullptr, nullptr); r.act(a, nullptr, -1); }
    pos += steps[i].first;
    m.runTo(pos * FU);
    out.resize(steps[i].first);
    BKInt n = BKContextGenerate(r.ctx, out.data(), (BKUInt)steps[i].first);
    CHECK(c, n == steps[i].first, "step %zu: %d frames", i, n);
    CHECK(c, r.err.empty(), "step %zu: %s", i, r.err.c_str());
    for (; seen < m.log.size() || seen < r.log.size(); seen++) {
      auto str = [&](std::vector<Entry> &l) { if (seen >= l.size()) return std::string("no call"); char b[160]; Entry &e = l[seen]; snprintf(b, sizeof b, "%s %d at %.6f (divider %u, next tick in %.6f)", e.kind ? "divider" : "clock", e.idx, e.time / (double)FU, e.div, e.next / (double)FU); return std::string(b); };
      std::string want = str(m.log), got = str(r.log);
      CHECK(c, want == got, "step %zu, call %zu: expected %s, got %s", i, seen, want.c_str(), got.c_str());
    }
    CHECK(c, r.time() == m.now, "step %zu: time %.6f, expected %.6f", i, r.time() / (double)FU, m.now / (double)FU);
    for (int k = 0; k < K; k++) (void)k;
    drifted = m.log.size();
  }
  size_t nc = 0, nd = 0; std::set<int> who;
  for (auto &e : m.log) { (e.kind ? nd : nc)++; who.insert(e.kind * 100 + e.idx); }
  r.finish();
  if (drifted >= 10 && who.size() >= 2 && steps.size() >= 2) c.nontrivial();
  if (nd) c.label("divider calls");
  if (nc) c.label("clock calls");
  if (longRun) c.label(slow ? "slow dividers" : "long run");
  if (scripts) c.label("callbacks act");
}
std::vector<vp::Property> vp_properties() {
  return {{"C17", "up to 4 clocks and 5 dividers with whole, fractional and very long periods, attached, detached, reset, disposed and changed from outside and from inside callbacks, audio requested in random pieces; every callback (who, when, divider) compared with a discrete event model; non-trivial: at least 10 calls by two or more objects over at least two requests", 116000, 2000000, test, {}}};
}
VP_MAIN
