#include "common.h"
// C28: attaching late, detaching, re-attaching and moving a source.
// Oracles: (late) a stream which begins at the moment of attaching, delayed by the run-ahead of the context;
// (detach) the same stream in which the source is muted at that moment; (move) a new source given the reported settings.
static int64_t all(int64_t n) { return n; }
static BKTime ctxTime(BKContext *x) { BKTime t = 0; BKGetPtr(x, BK_TIME, &t, sizeof t); return t; }
struct Ctx { BKContext *p = nullptr; int nch = 1; int64_t delivered = 0; std::string err;
  Ctx(Case &c, int channels, int rate, int period) : nch(channels) { CHECK(c, BKContextAlloc(&p, nch, rate) == 0, "context"); BKTime t = (BKTime)period * FU; CHECK(c, BKSetPtr(p, BK_CLOCK_PERIOD, &t, sizeof t) == 0, "period"); }
  void play(Case &c, Frames &f, int n) { size_t at = f.size(); f.resize(at + (size_t)n * nch); int r = BKContextGenerate(p, f.data() + at, n); CHECK(c, r == n, "generate delivered %d of %d frames", r, n); delivered += n; }
};
static void *mkUnit(Case &c, BKEnum w) { BKUnit *u = (BKUnit *)malloc(sizeof(BKUnit)); CHECK(c, BKUnitInit(u, w) == 0, "unit"); return u; }
static void *mkTrack(Case &c, BKEnum w) { BKTrack *t; CHECK(c, BKTrackAlloc(&t, w) == 0, "track"); return t; }
static int attachTo(void *p, bool track, BKContext *x) { return track ? BKTrackAttach((BKTrack *)p, x) : BKUnitAttach((BKUnit *)p, x); }
static void detachFrom(void *p, bool track) { if (track) BKTrackDetach((BKTrack *)p); else BKUnitDetach((BKUnit *)p); }
// a step of a script: one request or some frames
struct Step { int play = 0; Op op; };
static std::vector<Step> script(Case &c, const Scene &sc, const SceneOpts &o, int t, int n, int maxPlay) {
  std::vector<Step> v;
  for (int i = 0; i < n; i++) {
    Step s;
    if (c.chance(2, 5)) s.play = (int)c.logRange(1, maxPlay);
    else {
      s.op = genOp(c, sc, t, o, 8000);
      if (s.op.kind == OP_ATTR && s.op.attr == BK_MUTE && s.op.v[0] && c.chance(2, 3)) s.op.v[0] = 0;
    }
    v.push_back(s);
  }
  return v;
}
static Op setOp(int t, BKEnum a, int v) { Op op; op.kind = OP_ATTR; op.target = t; op.attr = a; op.v = {v}; return op; }
static Op dataOp(int t, BKEnum a, int v) { Op op = setOp(t, a, v); op.kind = OP_DATA; return op; }

// the background of a stream: sources, of which the last is the one under test
static Scene genBackground(Case &c, const SceneOpts &o, bool silent) {
  Scene s = genScene(c, o);
  s.clocks.clear();
  for (auto &src : s.sources) { src.attached = true; if (silent) { Op m = setOp((int)(&src - &s.sources[0]), src.track ? BK_MASTER_VOLUME : BK_VOLUME, 0); src.init.push_back(m); } }
  return s;
}
static void late(Case &c) {
  SceneOpts o; o.maxSources = 2; o.maxOps = 0; o.clocks = false; o.dividers = false; o.attachOps = false; o.kernelOps = false; o.clockPeriod = false; o.maxLen = 60; o.volume = 0.3;
  bool silent = c.chance(3, 4);
  if (c.chance(1, 4)) o.tracks = false;      // no clock runs before
  Scene *sc = new Scene(genBackground(c, o, silent));
  o.tracks = true;
  int P = (int)c.range(1, 4) == 1 ? (int)c.range(20, 60) : (int)c.range(60, 680);
  sc->masterPeriod = P;
  // a silent track makes the clock run in the other stream too
  bool clocked = false; for (auto &q : sc->sources) clocked |= q.track;
  int quiet = -1; if (clocked) { SourceSpec q; q.track = true; q.wave = BK_SQUARE; quiet = (int)sc->sources.size(); sc->sources.push_back(q); }
  int bg = (int)sc->sources.size();
  SourceSpec x; x.track = c.chance(2, 3); x.alloc = c.flip(); x.wave = BK_SQUARE; x.attached = false;
  sc->sources.push_back(x);
  std::vector<Step> init; 
  auto add = [&](Op op) { Step s; s.op = op; init.push_back(s); };
  add(setOp(bg, x.track ? BK_MASTER_VOLUME : BK_VOLUME, 8000));
  BKEnum w = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_NOISE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_SINE}); add(setOp(bg, BK_WAVEFORM, (int)w));
  if (x.track) { if (sc->instrs.size() && c.flip()) { Op op; op.kind = OP_INSTR; op.target = bg; op.v = {(int)c.draw((uint32_t)sc->instrs.size())}; add(op); } add(setOp(bg, BK_NOTE, noteVal(c))); }
  else { add(setOp(bg, BK_PERIOD, (int)c.logRange(FU / 8, 40 * FU))); add(setOp(bg, BK_MUTE, 0)); }
  std::vector<Step> before = init;
  std::vector<Step> more; { Scene t2 = *sc; if (!t2.data.empty() && c.flip()) { t2.sources[bg].wave = BK_SAMPLE; Step s; s.op = dataOp(bg, BK_SAMPLE, (int)c.draw((uint32_t)t2.data.size())); more.push_back(s); } auto v = script(c, t2, o, bg, (int)c.range(1, 14), 700); more.insert(more.end(), v.begin(), v.end()); }
  describe(c, *sc);
  Player *A = new Player(*sc), *N = new Player(*sc), *F = new Player(*sc);
  A->setup(); N->setup();
  F->only = {bg}; if (quiet >= 0) F->only.push_back(quiet);
  F->setup();
  CHECK(c, A->err.empty() && N->err.empty() && F->err.empty(), "%s", A->err.c_str());
  Frames fa, fn, ff;
  // a random wait, then the source comes in, possibly configured beforehand
  int wait = (int)c.range(0, 3); int64_t t0 = 0;
  for (int i = 0; i < wait; i++) { int n = (int)c.logRange(1, 900); c.note("play %d", n); A->produce(fa, n, all); N->produce(fn, n, all); t0 += n; }
  bool configFirst = c.flip();
  if (configFirst) for (auto &s : before) { c.note("%s", opStr(s.op).c_str()); A->apply(s.op); F->apply(s.op); }
  c.note("attach source %d at %lld", bg, (long long)t0);
  A->attach(bg); F->attach(bg);
  CHECK(c, A->status.back() == 0 && F->status.back() == 0, "attaching returned %d", A->status.back());
  if (c.chance(1, 4)) { CHECK(c, attachTo(A->src[bg].u, x.track, A->ctx) == (int)BK_INVALID_STATE && attachTo(A->src[bg].u, x.track, F->ctx) == (int)BK_INVALID_STATE, "an attached source was attached again"); c.note("attaching again was refused"); }
  if (!configFirst) for (auto &s : before) { c.note("%s", opStr(s.op).c_str()); A->apply(s.op); F->apply(s.op); }
  BKTime ahead = ctxTime(A->ctx) - t0 * (BKTime)FU;
  CHECK(c, ahead >= 0 && ahead < (BKTime)700 * FU && ahead % FU == 0, "the context is %.3f frames ahead", ahead / (double)FU);
  int64_t d = ahead / FU;
  if (d) { c.note("the context was %lld frames ahead", (long long)d); A->produce(fa, d, all); N->produce(fn, d, all); }
  size_t base = fa.size();
  for (auto &s : more) {
    if (s.play) { c.note("play %d", s.play); A->produce(fa, s.play, all); N->produce(fn, s.play, all); F->produce(ff, s.play, all); }
    else { c.note("%s", opStr(s.op).c_str()); A->status.clear(); F->status.clear(); A->apply(s.op); F->apply(s.op); CHECK(c, A->status == F->status, "request returned %d, in the new stream %d", A->status[0], F->status[0]); }
    CHECK(c, A->err.empty() && N->err.empty() && F->err.empty(), "%s%s%s", A->err.c_str(), N->err.c_str(), F->err.c_str());
  }
  { int n = (int)c.range(1, 900); c.note("play %d", n); A->produce(fa, n, all); N->produce(fn, n, all); F->produce(ff, n, all); }
  size_t nch = sc->channels;
  // before: nothing of it; afterwards: the new stream on top of the others
  for (size_t i = 0; i < base; i++) CHECK(c, fa[i] == fn[i], "sample %zu changed %zu frames before the source sounds", i, (base - i) / nch);
  for (size_t i = base; i < fa.size(); i++) {
    int want = fn[i] + ff[i - base];
    if (abs(want) > 32000) break;
    if (silent) CHECK(c, fa[i] == want, "frame %zu after attaching: sample %d, in a stream starting there %d", (i - base) / nch, fa[i], want);
    else CHECK(c, abs(fa[i] - want) <= 3, "frame %zu after attaching: sample %d, sum of the others and a stream starting there %d", (i - base) / nch, fa[i], want);
  }
  for (BKEnum at : {(BKEnum)BK_PHASE, (BKEnum)BK_PERIOD, (BKEnum)BK_MUTE, (BKEnum)BK_VOLUME_0}) {
    BKInt p = 0, q = 0; BKUnitGetAttr(A->src[bg].u, at, &p); BKUnitGetAttr(F->src[bg].u, at, &q); CHECK(c, p == q, "%s is %d, in a stream starting there %d", attrName(at), p, q);
    if (clocked || !x.track) for (int i = 0; i < bg; i++) {   // the first track starts the clock, with which the units run ahead
      BKUnitGetAttr(A->src[i].u, at, &p); BKUnitGetAttr(N->src[i].u, at, &q); CHECK(c, p == q, "%s of another source is %d, without the new source %d", attrName(at), p, q); }
  }
  c.label(d ? "attached while running ahead" : "attached at the exact position"); if (!silent) c.label("other sources audible");
  if (t0 && energy(ff) > ff.size() / 8) c.nontrivial();
  delete A; delete N; delete F; delete sc;
}
static void leave(Case &c) {
  SceneOpts o; o.maxSources = 3; o.maxOps = 0; o.clocks = c.chance(1, 3); o.dividers = false; o.attachOps = false; o.kernelOps = true; o.clockPeriod = true; o.maxLen = 60; o.volume = 0.4;
  Scene *sc = new Scene(genScene(c, o));
  SourceSpec quiet; quiet.track = c.flip(); quiet.wave = BK_SQUARE; sc->sources.push_back(quiet);   // keeps the stream running
  int n = (int)sc->sources.size() - 1, x = (int)c.draw((uint32_t)n);
  describe(c, *sc);
  Player *A = new Player(*sc), *B = new Player(*sc);
  A->setup(); B->setup();
  Frames fa, fb; bool gone = false, disposed = false; long heard = 0, later = 0;
  int steps = (int)c.range(3, 20), when = (int)c.draw((uint32_t)steps);
  bool track = sc->sources[x].track;
  for (int i = 0; i < steps; i++) {
    if (i == when) {
      gone = true; disposed = c.chance(1, 4) && !sc->sources[x].alloc;
      c.note("source %d %s", x, disposed ? "disposed" : "detached");
      if (disposed) { BKDispose(A->src[x].u); A->src[x].u = nullptr; A->src[x].t = nullptr; free(A->src[x].raw); A->src[x].raw = nullptr; }
      else { A->detach(x); if (c.chance(1, 3)) { c.note("and detached again"); detachFrom(A->src[x].u, track); } }
      BKUnitSetAttr(B->src[x].u, BK_MUTE, 1);
      if (track) { BKSetAttr(B->src[x].u, BK_NOTE, BK_NOTE_MUTE); BKSetAttr(B->src[x].u, BK_MUTE, 1); }
      continue;
    }
    if (c.chance(1, 2)) {
      int len = (int)c.logRange(1, 1200); c.note("play %d", len);
      size_t at = fa.size();
      A->produce(fa, len, all); B->produce(fb, len, all);
      CHECK(c, A->err.empty() && B->err.empty(), "%s%s", A->err.c_str(), B->err.c_str());
      for (size_t k = at; k < fa.size(); k++) { CHECK(c, fa[k] == fb[k], "sample %zu %s: %d, expected %d", k, gone ? "after the source was removed" : "before", fa[k], fb[k]); if (fa[k]) (gone ? later : heard)++; }
    } else {
      int t = gone && !disposed && c.flip() ? x : (int)c.draw((uint32_t)n + 1);
      Op op = genOp(c, *sc, t, o, 8000);
      if (gone && t == x) { if (!disposed) { c.note("%s (while detached)", opStr(op).c_str()); A->apply(op); } continue; }
      c.note("%s", opStr(op).c_str()); A->apply(op); B->apply(op);
    }
  }
  c.label(disposed ? "disposed" : "detached");
  if (gone && heard) c.nontrivial();
  delete A; delete B; delete sc;
}
static void move(Case &c) {
  bool track = c.flip(), same = c.chance(1, 3);
  int rates[] = {44100, 48000, 22050, 96000};
  int nch1 = (int)c.range(1, 3), nch2 = same ? nch1 : (int)c.range(1, 3), r1 = rates[c.draw(4)], r2 = same ? r1 : rates[c.draw(4)];
  int P = (int)c.range(40, 600);
  Ctx *one = new Ctx(c, nch1, r1, P), *two = same ? one : new Ctx(c, nch2, r2, P), *fresh = new Ctx(c, nch2, r2, P);
  c.note("from %d channels at %d Hz to %s%d channels at %d Hz, clock period %d", nch1, r1, same ? "the same: " : "", nch2, r2, P);
  // both target contexts run with something silent in them
  bool idleTrack = c.flip() || (same && track);   // the first track starts the clock
  std::vector<void *> idle; std::vector<bool> idleT;
  for (Ctx *x : {one, two, fresh}) { if (x == two && same && idle.size()) continue; void *p = idleTrack ? mkTrack(c, BK_SQUARE) : mkUnit(c, BK_SQUARE); CHECK(c, attachTo(p, idleTrack, x->p) == 0, "attach"); idle.push_back(p); idleT.push_back(idleTrack); }
  void *x = track ? mkTrack(c, BK_SQUARE) : mkUnit(c, BK_SQUARE);
  CHECK(c, attachTo(x, track, one->p) == 0, "attach");
  Frames f1, f2, ff;
  auto request = [&](std::vector<void *> objs, bool effects) {
    BKEnum at; int v;
    if (track) switch (c.weighted({5, 3, 2, 2, 2, 2, 2})) {
      case 0: at = BK_NOTE; v = noteVal(c); break;
      case 1: at = BK_VOLUME; v = (int)c.range(5000, BK_MAX_VOLUME); break;
      case 2: at = BK_PANNING; v = (int)c.range(-BK_MAX_VOLUME, BK_MAX_VOLUME); break;
      case 3: if (!effects) return; at = BK_PITCH; v = (int)c.range(-12 * FU, 12 * FU); break;   // not readable: not transferable
      case 4: at = BK_DUTY_CYCLE; v = (int)c.range(1, 15); break;
      case 5: at = BK_WAVEFORM; v = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH}); break;
      default: at = BK_MASTER_VOLUME; v = (int)c.range(1000, 9000);
    } else switch (c.weighted({5, 3, 2, 2, 2})) {
      case 0: at = BK_PERIOD; v = (int)c.logRange(FU / 4, 60 * FU); break;
      case 1: at = BK_VOLUME; v = (int)c.range(1000, 9000); break;
      case 2: at = BK_MUTE; v = c.chance(1, 4); break;
      case 3: at = BK_DUTY_CYCLE; v = (int)c.range(1, 15); break;
      default: at = BK_WAVEFORM; v = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH}); break;
    }
    if (track && effects && c.chance(1, 4)) {
      BKEnum e = BK_EFFECT_VOLUME_SLIDE + c.draw(5); BKInt val[3] = {(BKInt)c.range(0, 20), e == BK_EFFECT_TREMOLO ? (BKInt)c.range(0, BK_MAX_VOLUME) : (BKInt)c.range(-2 * FU, 2 * FU), (BKInt)c.range(0, 10)};
      c.note("effect %s %d %d %d", attrName(e), val[0], val[1], val[2]);
      for (void *p : objs) CHECK(c, BKSetPtr(p, e, val, sizeof val) == 0, "effect");
      return;
    }
    c.note("%s %d", attrName(at), v);
    for (void *p : objs) CHECK(c, BKSetAttr(p, at, v) == 0, "%s refused", attrName(at));
  };
  BKSetAttr(x, track ? BK_MASTER_VOLUME : BK_VOLUME, 8000);
  if (!track) { BKSetAttr(x, BK_PERIOD, 9 * FU); BKSetAttr(x, BK_MUTE, 0); } else BKSetAttr(x, BK_NOTE, 40 * FU);
  int hist = (int)c.range(1, 8);
  for (int i = 0; i < hist; i++) { if (c.flip()) request({x}, false); else { int n = (int)c.logRange(1, 900); c.note("play %d", n); one->play(c, f1, n); } }
  bool heard = energy(f1) > 0;
  c.note("detached");
  detachFrom(x, track);
  if (c.flip()) for (int i = (int)c.range(1, 3); i > 0; i--) request({x}, false);
  // let the old level fade out
  int wait = same ? 9000 : (int)c.logRange(1, 1500);
  while (wait > 0) { int n = std::min(wait, 1000); two->play(c, f2, n); fresh->play(c, ff, n); wait -= n; }
  while (same && fresh->delivered < two->delivered) fresh->play(c, ff, (int)std::min<int64_t>(1000, two->delivered - fresh->delivered));
  // the new source is given what the old one reports
  void *y = track ? mkTrack(c, BK_SQUARE) : mkUnit(c, BK_SQUARE);
  std::vector<BKEnum> keep = {(BKEnum)BK_WAVEFORM, (BKEnum)BK_DUTY_CYCLE};
  if (track) for (BKEnum a : {(BKEnum)BK_MASTER_VOLUME, (BKEnum)BK_VOLUME, (BKEnum)BK_PANNING, (BKEnum)BK_TRIANGLE_IGNORES_VOLUME}) keep.push_back(a);
  else for (BKEnum a : {(BKEnum)BK_PERIOD, (BKEnum)BK_MUTE}) keep.push_back(a);
  for (BKEnum a : keep) { BKInt v = 0; CHECK(c, BKGetAttr(x, a, &v) == 0 && BKSetAttr(y, a, v) == 0, "%s not transferable", attrName(a)); }
  if (!track) for (int k = 0; k < 8; k++) { BKInt v = 0; BKGetAttr(x, BK_VOLUME_0 + k, &v); BKSetAttr(y, BK_VOLUME_0 + k, v); }
  BKInt note = -1, mute = 0;
  if (track) { BKGetAttr(x, BK_NOTE, &note); BKGetAttr(x, BK_MUTE, &mute); if (note >= 0) BKSetAttr(y, BK_NOTE, note); }
  BKInt ph = 0; BKGetAttr(x, BK_PHASE, &ph); BKSetAttr(y, BK_PHASE, ph);
  c.note("attached to the other context in phase %d", ph);
  CHECK(c, attachTo(x, track, two->p) == 0 && attachTo(y, track, fresh->p) == 0, "attach");
  CHECK(c, attachTo(x, track, fresh->p) == (int)BK_INVALID_STATE, "a source was attached to two contexts");
  f2.clear(); ff.clear();
  int cont = (int)c.range(1, 10);
  size_t nch = nch2;
  for (int i = 0; i < cont; i++) {
    if (i && c.flip()) { request({x, y}, true); continue; }
    int n = (int)c.logRange(1, 900); c.note("play %d", n);
    f2.clear(); ff.clear();
    two->play(c, f2, n); fresh->play(c, ff, n);
    for (size_t k = 0; k < ff.size(); k++) CHECK(c, same ? abs(f2[k] - ff[k]) <= 1 : f2[k] == ff[k], "frame %zu of the moved source: %d, of a new one %d", k / nch, f2[k], ff[k]);
    for (BKEnum at : {(BKEnum)BK_PHASE, (BKEnum)BK_PERIOD, (BKEnum)BK_MUTE, (BKEnum)BK_VOLUME_0}) { BKInt p = 0, q = 0; BKUnitGetAttr((BKUnit *)x, at, &p); BKUnitGetAttr((BKUnit *)y, at, &q); if (at == BK_PERIOD && mute) continue; CHECK(c, p == q || n < 700, "%s is %d, of a new source %d", attrName(at), p, q); }
  }
  c.label(same ? "back to the same context" : r1 != r2 ? "moved to another sample rate" : "moved");
  if (heard && energy(ff) > 4) c.nontrivial();
  BKDispose(x); BKDispose(y); if (!track) { free(x); free(y); }
  for (size_t i = 0; i < idle.size(); i++) { BKDispose(idle[i]); if (!idleT[i]) free(idle[i]); }
  BKDispose(one->p); if (!same) { BKDispose(two->p); delete two; } BKDispose(fresh->p); delete one; delete fresh;
}
static void test(Case &c) {
  switch (c.weighted({4, 3, 4})) { case 0: late(c); break; case 1: leave(c); break; default: move(c); }
}
std::vector<vp::Property> vp_properties() {
  return {{"C28", "a source attached to a running stream against a stream beginning there, a removed source against a muted one, a source moved to another context against a new one with the reported settings; with up to 4 other sources; non-trivial: the stream had run before and the source was audible", 107000, 1070000, test, {}}};
}
VP_MAIN
