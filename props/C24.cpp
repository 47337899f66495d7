#include "common.h"
extern "C" void BKTrackReset(BKTrack *);
// C24: after a reset everything behaves as if freshly created with the same remaining settings.
// Oracle: a second context (or track, clock) created at that moment and given the remaining settings; both are then
// driven by the same continuation and must report the same values and give the same samples and ticks.
static const BKEnum trackAttrs[] = {BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_MASTER_VOLUME, BK_VOLUME, BK_PANNING, BK_PITCH, BK_NOTE, BK_MUTE, BK_WAVEFORM, BK_DUTY_CYCLE, BK_TRIANGLE_IGNORES_VOLUME, BK_PHASE, BK_PHASE_WRAP, BK_SAMPLE_REPEAT, BK_PERIOD};
static const BKEnum unitAttrs[] = {BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_MUTE, BK_PHASE, BK_PHASE_WRAP, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_7, BK_SAMPLE_PERIOD, BK_SAMPLE_REPEAT};
static void sameState(Case &c, void *a, void *b, bool track, int idx, const char *when, bool phase, bool applied) {
  auto one = [&](BKEnum at) {
    BKInt x = -77, y = -77;
    int r = BKGetAttr(a, at, &x), q = BKGetAttr(b, at, &y);
    // the period of a muted source or one without waveform tells nothing
    CHECK(c, r == q && x == y, "%s: source %d: %s is %d, new one %d (%d, %d)", when, idx, attrName(at), x, y, r, q);
  };
  BKInt wa = 0, mute = 0, wb = 0;
  BKGetAttr(a, BK_WAVEFORM, &wa); BKGetAttr(b, BK_WAVEFORM, &wb); BKGetAttr(b, BK_MUTE, &mute);
  if (track) { for (BKEnum at : trackAttrs) if (at != BK_PERIOD && ((phase && wb) || at != BK_PHASE)) one(at); }   // without waveform there is no phase
  else for (BKEnum at : unitAttrs) if (wb || at != BK_PHASE) one(at);
  if (track && !mute && wb && applied) {
    if (wb != BK_SAMPLE) one(BK_PERIOD);
    else { BKInt x = 0, y = 0; BKUnitGetAttr((BKUnit *)a, BK_SAMPLE_PERIOD, &x); BKUnitGetAttr((BKUnit *)b, BK_SAMPLE_PERIOD, &y); CHECK(c, x == y, "%s: source %d: sample period %d, new one %d", when, idx, x, y); }
  }   // applied: units ran since the last request
  for (BKEnum at : {(BKEnum)BK_SAMPLE, (BKEnum)BK_WAVEFORM}) { void *p = nullptr, *q = nullptr; int r = BKGetPtr(a, at, &p, sizeof p), s = BKGetPtr(b, at, &q, sizeof q); CHECK(c, r == s && !p == !q, "%s: source %d has %s data, new one %s", when, idx, p ? "" : "no", q ? "has" : "has none"); }
  if (track) {
    for (int e = 0; e < 5; e++) {
      BKInt x[3] = {7, 7, 7}, y[3] = {7, 7, 7}; BKEnum at = BK_EFFECT_VOLUME_SLIDE + e;
      int r = BKGetPtr(a, at, x, sizeof x), q = BKGetPtr(b, at, y, sizeof y);
      CHECK(c, r == q && !memcmp(x, y, sizeof x), "%s: source %d: %s is %d %d %d, new one %d %d %d", when, idx, attrName(at), x[0], x[1], x[2], y[0], y[1], y[2]);
    }
    BKInt x[20], y[20]; memset(x, 0, sizeof x); memset(y, 0, sizeof y);
    BKGetPtr(a, BK_ARPEGGIO, x, sizeof x); BKGetPtr(b, BK_ARPEGGIO, y, sizeof y);
    CHECK(c, !memcmp(x, y, sizeof x), "%s: source %d: arpeggio differs", when, idx);
    for (int k = 0; k < 2; k++) { BKInt u = 0, v = 0; BKUnitGetAttr((BKUnit *)a, BK_VOLUME_0 + k, &u); BKUnitGetAttr((BKUnit *)b, BK_VOLUME_0 + k, &v); if (!mute && applied) CHECK(c, u == v, "%s: source %d: volume %d of the unit is %d, new one %d", when, idx, k, u, v); }
  }
}
static SceneOpts opts(Case &c) { SceneOpts o; o.maxSources = 3; o.maxOps = 0; o.attachOps = false; o.maxLen = 100; o.keepOne = true; o.samples = c.chance(2, 3); return o; }
// history or continuation step applied to one or two players
static Op stepOp(Case &c, const Scene &sc, const SceneOpts &o, Player *pa) {
  int t = (int)c.draw((uint32_t)sc.sources.size());
  Op op; (void)pa;
  if (c.chance(1, 25)) { op.kind = OP_KERNEL; op.v = {(int)c.draw(2)}; return op; }
  if (c.chance(1, 25)) { op.kind = OP_CLOCKPERIOD; op.v = {(int)c.range(10 * FU, 900 * FU)}; return op; }
  if (sc.sources[t].track && c.chance(1, 4)) { op.target = t; op.kind = OP_ATTR; op.attr = BK_NOTE; op.v = {noteVal(c)}; return op; }
  if (c.chance(1, 6)) { op.target = t; op.kind = OP_ATTR; op.attr = BK_VOLUME; op.v = {(int)c.range(2000, 8000)}; return op; }
  if (!sc.sources[t].track && c.chance(1, 4)) { op.target = t; op.kind = OP_ATTR; op.attr = BK_WAVEFORM; op.v = {(int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_NOISE, (BKEnum)BK_SINE, (BKEnum)BK_TRIANGLE})}; return op; }
  return genOp(c, sc, t, o, 9000);
}
static void contextReset(Case &c) {
  SceneOpts o = opts(c);
  Scene *sc = new Scene(genScene(c, o));
  describe(c, *sc);
  bool freeAttach = sc->dividers.empty();
  Player *A = new Player(*sc);
  A->setup();
  CHECK(c, A->err.empty(), "%s", A->err.c_str());
  int kernel = sc->kernel; Frames fa, fb;
  auto all = [](int64_t n) { return n; };
  int hist = (int)c.range(1, 8);
  long heard = 0;
  for (int i = 0; i < hist; i++) {
    int n = (int)c.range(0, 4);
    while (n--) {
      Op op = stepOp(c, *sc, o, A);
      if (freeAttach && c.chance(1, 12)) { op = Op(); op.kind = c.flip() ? OP_DETACH : OP_ATTACH; op.target = (int)c.draw((uint32_t)sc->sources.size()); }
      if (op.kind == OP_KERNEL) kernel = op.v[0];
      c.note("history: %s", opStr(op).c_str()); A->apply(op);
    }
    bool any = false; for (auto &s : A->src) any |= s.attached;
    if (!any) continue;
    int64_t len = c.logRange(1, 900); c.note("history: play %lld", (long long)len); fa.clear(); A->produce(fa, len, all); heard += energy(fa) > 0;
    CHECK(c, A->err.empty(), "%s", A->err.c_str());
  }
  for (size_t i = 0; i < A->src.size(); i++) if (!A->src[i].attached) { A->attach((int)i); CHECK(c, A->status.back() == 0, "attaching returned %d", A->status.back()); }
  c.note("context reset");
  BKContextReset(A->ctx);
  for (auto &d : A->dctx) d->tick = 0;
  BKTime t; CHECK(c, BKGetPtr(A->ctx, BK_TIME, &t, sizeof t) == 0 && t == 0, "time after the reset is %.3f frames", (double)t / FU);
  // the new context with the remaining settings
  Scene *sb = new Scene(*sc);
  for (auto &s : sb->sources) { s.init.clear(); s.attached = true; }
  sb->kernel = kernel; sb->masterPeriod = 0;
  Player *B = new Player(*sb);
  B->setup();
  CHECK(c, B->err.empty(), "%s", B->err.c_str());
  BKTime period; BKGetPtr(A->ctx, BK_CLOCK_PERIOD, &period, sizeof period); BKSetPtr(B->ctx, BK_CLOCK_PERIOD, &period, sizeof period);
  for (size_t i = 0; i < A->src.size(); i++) {
    bool track = A->src[i].t; void *a = A->src[i].u, *b = B->src[i].u;
    std::vector<BKEnum> keep = {BK_WAVEFORM};
    if (track) { keep.push_back(BK_MASTER_VOLUME); keep.push_back(BK_TRIANGLE_IGNORES_VOLUME); }
    else for (BKEnum at : {(BKEnum)BK_DUTY_CYCLE, (BKEnum)BK_PERIOD, (BKEnum)BK_MUTE}) keep.push_back(at);
    for (BKEnum at : keep) { BKInt v = 0; if (BKGetAttr(a, at, &v) == 0 || at == BK_WAVEFORM) CHECK(c, BKSetAttr(b, at, v) == 0, "%s = %d refused by the new source", attrName(at), v); }
    if (!track) for (int k = 0; k < 8; k++) { BKInt v = 0; BKGetAttr(a, BK_VOLUME_0 + k, &v); BKSetAttr(b, BK_VOLUME_0 + k, v); }
    sameState(c, a, b, track, (int)i, "after the reset", true, false);
  }
  int cont = (int)c.range(1, 8); bool same = true; long audible = 0;
  for (int i = 0; i < cont && same; i++) {
    int n = (int)c.range(0, 4);
    while (n--) { Op op = stepOp(c, *sc, o, A); c.note("%s", opStr(op).c_str()); A->status.clear(); B->status.clear(); A->apply(op); B->apply(op); CHECK(c, A->status == B->status, "request returned %d, for the new one %d", A->status[0], B->status[0]); }
    int64_t len = c.flip() ? c.range(700, 900) : c.logRange(1, 900); c.note("play %lld", (long long)len);
    fa.clear(); fb.clear(); A->produce(fa, len, all); B->produce(fb, len, all);
    CHECK(c, A->err.empty() && B->err.empty(), "%s%s", A->err.c_str(), B->err.c_str());
    size_t d = firstDiff(fa, fb);
    CHECK(c, d == fa.size(), "sample %zu after the reset differs from a new context: %s vs %s", d, framesStr(fa.data() + d, fa.size() - d, 8).c_str(), framesStr(fb.data() + d, fb.size() - d, 8).c_str());
    for (size_t k = 0; k < A->src.size(); k++) sameState(c, A->src[k].u, B->src[k].u, A->src[k].t, (int)k, "later", true, len >= 700);
    audible += energy(fa) > 4;
  }
  c.label("context");
  if (heard && audible) c.nontrivial();
  delete A; delete B; delete sb; delete sc;
}
// one track of a running context is reset; in the other context it is replaced by a new one
static void trackReset(Case &c, bool clear) {
  SceneOpts o = opts(c); o.dividers = false; o.clocks = false; o.kernelOps = false; o.units = c.flip();
  Scene *sc = new Scene(genScene(c, o));
  sc->kernel = -1;
  SourceSpec sp; sp.track = true; sp.alloc = c.flip(); sp.wave = BK_SQUARE;
  sc->sources.push_back(sp);
  describe(c, *sc);
  int me = (int)sc->sources.size() - 1;
  Player *A = new Player(*sc), *B = new Player(*sc);
  A->setup(); B->setup();
  CHECK(c, A->err.empty() && B->err.empty(), "%s", A->err.c_str());
  BKSetAttr(A->src[me].u, BK_MASTER_VOLUME, 9000); BKSetAttr(B->src[me].u, BK_MASTER_VOLUME, 9000);
  Frames fa, fb; auto all = [](int64_t n) { return n; };
  long heard = 0, audible = 0;
  int favour = c.chance(1, 2) ? (int)c.draw(5) : -1;      // one effect is changed often
  auto step = [&](const char *when) {
    int n = (int)c.range(1, 4);
    while (n--) {
      Op op = stepOp(c, *sc, o, A);
      if (op.kind != OP_CLOCKPERIOD && c.chance(2, 3)) { op = c.chance(1, 3) ? Op() : genOp(c, *sc, me, o, 9000); if (op.kind == OP_NOP) { op.kind = OP_ATTR; op.attr = BK_NOTE; op.v = {noteVal(c)}; } op.target = me; }
      if (favour >= 0 && c.chance(1, 3)) {
        op = Op(); op.kind = OP_EFFECT; op.target = me; op.attr = BK_EFFECT_VOLUME_SLIDE + favour;
        op.v = {(int)c.range(1, 20), op.attr == BK_EFFECT_TREMOLO ? (int)c.range(8000, BK_MAX_VOLUME) : (int)c.range(FU / 4, 2 * FU), (int)c.range(0, 10)};
      }
      c.note("%s%s", when, opStr(op).c_str()); A->apply(op); B->apply(op);
    }
  };
  int hist = (int)c.range(1, 6);
  for (int i = 0; i < hist; i++) {
    step("history: ");
    int64_t len = c.logRange(1, 900); c.note("history: play %lld", (long long)len);
    fa.clear(); fb.clear(); A->produce(fa, len, all); B->produce(fb, len, all); heard += energy(fa) > 0;
  }
  // a note of the old track must not depend on what the new one cannot know: its level fades out in both
  c.note("track %d %s", me, clear ? "cleared" : "reset");
  BKTrack *ta = A->src[me].t, *tb = B->src[me].t;
  BKInt wave = 0, vol = 0, tri = 0, duty = 0, wave0 = -1, vol0 = -1, tri0 = -1;
  BKGetAttr(ta, BK_WAVEFORM, &wave0); BKGetAttr(ta, BK_MASTER_VOLUME, &vol0); BKGetAttr(ta, BK_TRIANGLE_IGNORES_VOLUME, &tri0);
  if (clear) BKTrackClear(ta); else BKTrackReset(ta);
  BKGetAttr(ta, BK_WAVEFORM, &wave); BKGetAttr(ta, BK_MASTER_VOLUME, &vol); int triOk = BKGetAttr(ta, BK_TRIANGLE_IGNORES_VOLUME, &tri); BKGetAttr(ta, BK_DUTY_CYCLE, &duty);
  bool data = wave0 == (BKInt)BK_CUSTOM || wave0 == (BKInt)BK_SAMPLE;
  CHECK(c, vol == vol0 && tri == tri0 && (data || wave == wave0), "the %s changed waveform, master volume and triangle setting from %#x, %d, %d to %#x, %d, %d", clear ? "clearing" : "reset", wave0, vol0, tri0, wave, vol, tri);
  BKDispose(tb);
  if (sp.alloc) { CHECK(c, BKTrackAlloc(&B->src[me].t, BK_SQUARE) == 0, "track"); B->src[me].u = (BKUnit *)B->src[me].t; tb = B->src[me].t; } else CHECK(c, BKTrackInit(tb, BK_SQUARE) == 0, "track");
  CHECK(c, BKSetAttr(tb, BK_WAVEFORM, wave) == 0 && BKSetAttr(tb, BK_MASTER_VOLUME, vol) == 0, "settings refused");
  if (triOk == 0) BKSetAttr(tb, BK_TRIANGLE_IGNORES_VOLUME, tri);
  if (clear) BKSetAttr(tb, BK_DUTY_CYCLE, duty);
  CHECK(c, BKTrackAttach(tb, B->ctx) == 0, "attach");
  sameState(c, ta, tb, true, me, "after the reset", !clear, false);
  int cont = (int)c.range(1, 8);
  for (int i = 0; i < cont; i++) {
    step("");
    int64_t len = c.flip() ? c.range(700, 900) : c.logRange(1, 900); c.note("play %lld", (long long)len);
    fa.clear(); fb.clear(); A->produce(fa, len, all); B->produce(fb, len, all);
    CHECK(c, A->err.empty() && B->err.empty(), "%s%s", A->err.c_str(), B->err.c_str());
    size_t d = firstDiff(fa, fb);
    if (!clear) CHECK(c, d == fa.size(), "sample %zu after the reset differs from a new track: %s vs %s", d, framesStr(fa.data() + d, fa.size() - d, 8).c_str(), framesStr(fb.data() + d, fb.size() - d, 8).c_str());
    sameState(c, A->src[me].u, B->src[me].u, true, me, "later", !clear, len >= 700);
    audible += energy(fa) > 4;
  }
  c.label(clear ? "track cleared" : "track reset");
  if (heard && audible) c.nontrivial();
  delete A; delete B; delete sc;
}
// a clock which is reset ticks like a new one attached at that moment
struct Log { std::vector<std::pair<int64_t, int>> e; BKContext *ctx; };
struct LogCb { Log *l; int id; };
static BKEnum onLog(BKCallbackInfo *, void *u) { LogCb *k = (LogCb *)u; BKTime t = 0; BKGetPtr(k->l->ctx, BK_TIME, &t, sizeof t); k->l->e.push_back({t, k->id}); return 0; }
static void clockReset(Case &c) {
  struct Side { BKContext *ctx; BKUnit *u; BKClock *clock[2]; std::vector<BKDivider *> d; Log log; std::vector<LogCb *> cb; };
  Side *s[2] = {new Side, new Side};
  int nd = (int)c.range(0, 3), count[3]; bool ctxDiv[3];
  double per[2] = {(double)c.range(20, 800) + c.draw(8) / 8.0, (double)c.range(20, 800) + c.draw(8) / 8.0};
  bool two = c.flip();
  for (int i = 0; i < nd; i++) { count[i] = (int)c.range(1, 6); ctxDiv[i] = c.chance(1, 4); c.note("divider %d count %d%s", i, count[i], ctxDiv[i] ? " on the context" : ""); }
  c.note("clock periods %.3f%s", per[0], two ? (" and " + std::to_string(per[1])).c_str() : "");
  auto cb = [&](Side *x, int id) { LogCb *k = new LogCb{&x->log, id}; x->cb.push_back(k); BKCallback b; b.func = onLog; b.userInfo = k; return b; };
  for (Side *x : s) {
    CHECK(c, BKContextAlloc(&x->ctx, 1, 44100) == 0, "context");
    x->log.ctx = x->ctx;
    x->u = (BKUnit *)malloc(sizeof(BKUnit)); BKUnitInit(x->u, BK_SQUARE); BKUnitAttach(x->u, x->ctx);
    for (int k = 0; k < 1 + two; k++) { BKCallback b = cb(x, 100 + k); CHECK(c, BKClockAlloc(&x->clock[k], mkTime(per[k]), &b) == 0 && BKClockAttach(x->clock[k], x->ctx, nullptr) == 0, "clock"); }
    for (int i = 0; i < nd; i++) { BKDivider *d; BKCallback b = cb(x, i); CHECK(c, BKDividerAlloc(&d, count[i], &b) == 0, "divider"); x->d.push_back(d); CHECK(c, (ctxDiv[i] ? BKContextAttachDivider(x->ctx, d, BK_CLOCK_TYPE_BEAT) : BKDividerAttachToClock(d, x->clock[0])) == 0, "attach"); }
  }
  std::vector<BKFrame> f(1000);
  auto play = [&](const char *w) { int n = (int)c.logRange(1, 1000); c.note("%splay %d", w, n); for (Side *x : s) CHECK(c, BKContextGenerate(x->ctx, f.data(), n) == n, "frames"); };
  int hist = (int)c.range(1, 5);
  for (int i = 0; i < hist; i++) { if (c.chance(1, 4)) { per[0] = (double)c.range(20, 800); c.note("period %.0f", per[0]); for (Side *x : s) BKClockSetPeriod(x->clock[0], mkTime(per[0])); } play("history: "); }
  // second side: a new clock at the same place takes over the dividers
  c.note("clock reset");
  bool which = c.chance(1, 3), empty = which && c.flip();
  if (which) {      // the context's clocks and time all start anew
    for (Side *x : s) x->log.e.clear();
    if (empty) { c.note("without sources"); BKDispose(s[0]->u); }
    BKContextReset(s[0]->ctx);
    if (empty) { BKUnitInit(s[0]->u, BK_SQUARE); BKUnitAttach(s[0]->u, s[0]->ctx); }
    Side *x = s[1];
    for (auto d : x->d) BKDispose(d);
    for (int k = 0; k < 1 + two; k++) BKDispose(x->clock[k]);
    BKDispose(x->u); BKDispose(x->ctx); x->d.clear();
    CHECK(c, BKContextAlloc(&x->ctx, 1, 44100) == 0, "context"); x->log.ctx = x->ctx;
    BKUnitInit(x->u, BK_SQUARE); BKUnitAttach(x->u, x->ctx);
    for (int k = 0; k < 1 + two; k++) { BKCallback b = cb(x, 100 + k); CHECK(c, BKClockAlloc(&x->clock[k], mkTime(per[k]), &b) == 0 && BKClockAttach(x->clock[k], x->ctx, nullptr) == 0, "clock"); }
    for (int i = 0; i < nd; i++) { BKDivider *d; BKCallback b = cb(x, i); CHECK(c, BKDividerAlloc(&d, count[i], &b) == 0, "divider"); x->d.push_back(d); CHECK(c, (ctxDiv[i] ? BKContextAttachDivider(x->ctx, d, BK_CLOCK_TYPE_BEAT) : BKDividerAttachToClock(d, x->clock[0])) == 0, "attach"); }
  } else {
    BKClockReset(s[0]->clock[0]);
    Side *x = s[1];
    for (int i = 0; i < nd; i++) if (!ctxDiv[i]) BKDispose(x->d[i]);
    BKDispose(x->clock[0]);
    BKCallback b = cb(x, 100); CHECK(c, BKClockAlloc(&x->clock[0], mkTime(per[0]), &b) == 0 && BKClockAttach(x->clock[0], x->ctx, two ? x->clock[1] : nullptr) == 0, "clock");
    for (int i = 0; i < nd; i++) if (!ctxDiv[i]) { BKCallback b = cb(x, i); CHECK(c, BKDividerAlloc(&x->d[i], count[i], &b) == 0 && BKDividerAttachToClock(x->d[i], x->clock[0]) == 0, "divider"); }
    // without a second clock the new one is after the master clock as before
    for (Side *y : s) y->log.e.clear();
  }
  int cont = (int)c.range(1, 5);
  if (which) for (Side *x : s) { BKSetAttr(x->u, BK_WAVEFORM, BK_SQUARE); BKSetAttr(x->u, BK_PERIOD, 20 << 20); BKSetAttr(x->u, BK_VOLUME, 9000); BKSetAttr(x->u, BK_MUTE, 0); }
  for (int i = 0; i < cont; i++) {
    play("");
    if (!which) continue;
    int n = (int)c.range(1, 1000); std::vector<BKFrame> g(1000); c.note("play %d and compare", n);
    CHECK(c, BKContextGenerate(s[0]->ctx, f.data(), n) == n && BKContextGenerate(s[1]->ctx, g.data(), n) == n, "frames");
    for (int k = 0; k < n; k++) CHECK(c, f[k] == g[k], "frame %d is %d after the reset, %d in a new context", k, f[k], g[k]);
  }
  auto &a = s[0]->log.e, &b = s[1]->log.e;
  // ticks at the same time may be ordered differently only between clocks
  for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
    CHECK(c, i < a.size() && i < b.size(), "%zu ticks after the reset, %zu of a new clock", a.size(), b.size());
    CHECK(c, a[i] == b[i], "tick %zu after the reset: callback %d at %.4f, of a new clock: %d at %.4f", i, a[i].second, a[i].first / (double)FU, b[i].second, b[i].first / (double)FU);
  }
  c.label("clock");
  if (a.size() > 3) c.nontrivial();
  for (Side *x : s) { for (auto d : x->d) BKDispose(d); for (int k = 0; k < 1 + two; k++) BKDispose(x->clock[k]); BKDispose(x->u); free(x->u); BKDispose(x->ctx); for (auto k : x->cb) delete k; delete x; }
}
static void test(Case &c) {
  switch (c.weighted({5, 4, 2, 2})) {
    case 0: contextReset(c); break;
    case 1: trackReset(c, false); break;
    case 2: trackReset(c, true); break;
    default: clockReset(c);
  }
}
std::vector<vp::Property> vp_properties() {
  return {{"C24", "a random history with up to 4 sources, instruments, data, clocks and dividers; then a reset of the context, a track or a clock against a newly created one given the remaining settings, and a random continuation; non-trivial: audible (ticking) before and after", 56000, 560000, test, {}}};
}
VP_MAIN
