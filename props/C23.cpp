#include "common.h"
#include "wave.h"
// C23: any history of creating, linking, using and disposing objects is free of memory errors, leaks and dangling links.
// Oracle: the memory checker (every in-place object's storage is released right after its disposal), the allocation
// balance, a model of all links giving the result of each request, and the links the getters report.
enum { CTX, UNIT, TRACK, INSTR, DATA, CLOCK, DIVIDER, KINDS };
static const char *kn[] = {"context", "unit", "track", "instrument", "data", "clock", "divider"};
struct World;
struct Cb { World *w; int kind, idx; };
struct Obj {
  int kind = 0, idx = 0; bool live = false, alloc = false; void *p = nullptr;
  int ctx = -1;              // units, tracks, clocks: attached to
  int instr = -1;            // tracks: instrument, -2: unknown
  int gclock = -1, gctx = -1, gtype = 0;  // dividers: attached to clock / group of context
  int nch = 1; long calls = 0; bool dataSet = false; bool frames = false;
  std::vector<Frames *> lent; Cb cb;
};
struct World {
  Case &c; std::vector<Obj> o[KINDS]; int nestLeft = 0, inCb = 0, selfKind = -1, selfIdx = -1, running = -1, selfClock = -1;
  long sampleCbs = 0, sampleOps = 0, disposedLinked = 0, cbOps = 0, played = 0, relinked = 0; std::string err;
  World(Case &cc) : c(cc) {}
  int pickObj(int k) { return (int)c.draw((uint32_t)o[k].size()); }
  static BKEnum onTick(BKCallbackInfo *info, void *u) {
    Cb *cb = (Cb *)u; World *w = cb->w; Obj &me = w->o[cb->kind][cb->idx];
    me.calls++;
    if (!me.live && w->err.empty()) w->err = "a disposed " + std::string(kn[cb->kind]) + " was called";
    if (cb->kind == DIVIDER && me.gclock < 0 && me.gctx < 0 && w->err.empty()) w->err = "a detached divider was called";
    if (cb->kind == CLOCK && me.ctx < 0 && w->err.empty()) w->err = "a detached clock was called";
    if (w->nestLeft > 0 && w->c.chance(1, 3)) {
      w->nestLeft--;
      int sk = w->selfKind, si = w->selfIdx, sc = w->selfClock;
      w->selfKind = cb->kind; w->selfIdx = cb->idx; w->selfClock = cb->kind == CLOCK ? cb->idx : me.gclock;
      w->inCb++; w->op(); w->inCb--;
      w->selfKind = sk; w->selfIdx = si; w->selfClock = sc; w->cbOps++;
    }
    return 0;
  }
  // the end of a sample: other objects may change and be disposed, the unit itself all but disposed
  static BKEnum onSample(BKCallbackInfo *info, void *u) {
    Cb *cb = (Cb *)u; World *w = cb->w; Obj &me = w->o[cb->kind][cb->idx];
    if (!me.live && w->err.empty()) w->err = "the sample callback of a disposed " + std::string(kn[cb->kind]) + " was called";
    if (info->event != BK_EVENT_SAMPLE_RESET || w->running < 0) return 0;
    if (info->object != me.p && w->err.empty()) w->err = "sample callback with another object";
    if (me.ctx != w->running && w->err.empty()) w->err = "the sample of a detached " + std::string(kn[cb->kind]) + " was played";
    w->sampleCbs++;
    if (w->nestLeft > 0 && w->c.chance(1, 3)) {
      int n = w->c.chance(1, 3) ? 2 : 1;
      for (int q = 0; q < n; q++) {
        w->nestLeft--;
        int sk = w->selfKind, si = w->selfIdx, sc = w->selfClock;
        w->selfKind = cb->kind; w->selfIdx = cb->idx; w->selfClock = -1;
        w->inCb++;
        if (w->c.chance(1, 3)) w->sourceOp(cb->kind, w->c.chance(2, 3) ? cb->idx : w->pickObj(cb->kind)); else w->op();
        w->inCb--;
        w->selfKind = sk; w->selfIdx = si; w->selfClock = sc; w->sampleOps++;
      }
    }
    return w->c.pick({(BKEnum)BK_REPEAT, (BKEnum)BK_PALINDROME, (BKEnum)BK_NO_REPEAT, (BKEnum)BK_REPEAT});
  }
  // mostly links of a unit or track
  void sourceOp(int k, int i) {
    Obj &x = o[k][i]; Obj &cx = o[CTX][pickObj(CTX)];
    if (!x.live) return;
    if (x.ctx >= 0) { c.note("  (callback) detach %s %d", kn[k], i); if (k == TRACK) BKTrackDetach((BKTrack *)x.p); else BKUnitDetach((BKUnit *)x.p); x.ctx = -1; if (c.flip()) return; }
    if (!cx.live) return;
    c.note("  (callback) attach %s %d to context %d", kn[k], i, cx.idx);
    int r = k == TRACK ? BKTrackAttach((BKTrack *)x.p, (BKContext *)cx.p) : BKUnitAttach((BKUnit *)x.p, (BKContext *)cx.p);
    if (r == 0) { x.ctx = cx.idx; relinked++; }
    else if (!x.dataSet || r != BK_INVALID_NUM_CHANNELS) expect("attaching", r, 0);
  }
  void bad(const std::string &s) { if (err.empty()) err = s; }
  void expect(const char *what, int r, int want) { if (r != want) bad(std::string(what) + " returned " + std::to_string(r) + ", expected " + std::to_string(want)); }
  template <class T> T *raw() { T *p = (T *)malloc(sizeof(T)); vp_fill(p, sizeof(T)); return p; }
  void create(int k, int i) {
    Obj &x = o[k][i];
    bool alloc = c.flip(); x.live = true; x.alloc = alloc; x.ctx = x.gclock = x.gctx = -1; x.instr = -1; x.dataSet = false; x.frames = false; x.p = nullptr;
    int from = -1;
    if ((k == INSTR || k == DATA) && c.chance(1, 3)) { from = pickObj(k); if (from == i || !o[k][from].live) from = -1; else x.alloc = alloc = false; }
    c.note("%screate %s %d%s%s", inCb ? "  (callback) " : "", kn[k], i, alloc ? "" : " in place", from >= 0 ? (" as copy of " + std::to_string(from)).c_str() : "");
    BKCallback cb; cb.func = onTick; x.cb = {this, k, i}; cb.userInfo = &x.cb;
    BKEnum wave = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_NOISE});
    int r = 0;
    switch (k) {
      case CTX: x.nch = (int)c.range(1, 3); r = alloc ? BKContextAlloc((BKContext **)&x.p, x.nch, 44100) : BKContextInit((BKContext *)(x.p = raw<BKContext>()), x.nch, 44100); break;
      case UNIT: x.alloc = false; r = BKUnitInit((BKUnit *)(x.p = raw<BKUnit>()), wave); BKSetAttr(x.p, BK_PERIOD, 9 * FU); BKSetAttr(x.p, BK_VOLUME, 8000); BKSetAttr(x.p, BK_MUTE, 0); break;
      case TRACK: r = alloc ? BKTrackAlloc((BKTrack **)&x.p, wave) : BKTrackInit((BKTrack *)(x.p = raw<BKTrack>()), wave); if (r == 0) BKSetAttr(x.p, BK_MASTER_VOLUME, 8000); break;
      case INSTR:
        if (from >= 0) r = BKInstrumentInitCopy((BKInstrument *)(x.p = raw<BKInstrument>()), (BKInstrument *)o[k][from].p);
        else r = alloc ? BKInstrumentAlloc((BKInstrument **)&x.p) : BKInstrumentInit((BKInstrument *)(x.p = raw<BKInstrument>()));
        break;
      case DATA:
        if (from >= 0) { r = BKDataInitCopy((BKData *)(x.p = raw<BKData>()), (BKData *)o[k][from].p); x.frames = o[k][from].frames; x.nch = o[k][from].nch; }
        else r = alloc ? BKDataAlloc((BKData **)&x.p) : BKDataInit((BKData *)(x.p = raw<BKData>()));
        break;
      case CLOCK: { BKTime t = mkTime((double)c.range(20, 400)); r = alloc ? BKClockAlloc((BKClock **)&x.p, t, &cb) : BKClockInit((BKClock *)(x.p = raw<BKClock>()), t, &cb); break; }
      case DIVIDER: { BKUInt n = (BKUInt)c.range(1, 3); r = alloc ? BKDividerAlloc((BKDivider **)&x.p, n, &cb) : BKDividerInit((BKDivider *)(x.p = raw<BKDivider>()), n, &cb); break; }
    }
    expect("creating", r, 0);
    if (r != 0) x.live = false;
    else if ((k == UNIT || k == TRACK) && c.chance(2, 3)) { BKCallback sc = {onSample, &x.cb}; expect("sample callback", BKSetPtr(x.p, BK_SAMPLE_CALLBACK, &sc, sizeof sc), 0); }
  }
  void unlink(int k, int i) {          // what disposing / detaching everything does to the model
    if (k == CTX) {
      for (int q : {UNIT, TRACK, CLOCK}) for (auto &y : o[q]) if (y.live && y.ctx == i) { y.ctx = -1; disposedLinked++; }
      for (auto &y : o[DIVIDER]) if (y.gctx == i) { y.gctx = -1; disposedLinked++; }
    }
    if (k == CLOCK) for (auto &y : o[DIVIDER]) if (y.gclock == i) { y.gclock = -1; disposedLinked++; }
    if (k == INSTR) for (auto &y : o[TRACK]) if (y.live && y.instr == i) { y.instr = -1; disposedLinked++; }
  }
  bool busy(int k, int i) {            // used by the running callbacks: not to be touched
    if (!inCb) return false;
    if (k == CTX) return i == running;
    if (k == selfKind && i == selfIdx) return true;
    return k == CLOCK && i == selfClock;
  }
  void dispose(int k, int i) {
    Obj &x = o[k][i];
    if (busy(k, i)) return;
    c.note("%sdispose %s %d", inCb ? "  (callback) " : "", kn[k], i);
    if (x.ctx >= 0 || x.gclock >= 0 || x.gctx >= 0) disposedLinked++;
    BKDispose(x.p);
    if (!x.alloc) {
      if (c.chance(1, 8)) BKDispose(x.p);   // nothing left to dispose
      free(x.p);
    }
    x.p = nullptr; x.live = false; unlink(k, i);
    x.ctx = x.gclock = x.gctx = -1; x.instr = -1;
    for (auto f : x.lent) delete f;
    x.lent.clear();
  }
  // links reported agree with the model
  void links() {
    for (auto &t : o[TRACK]) if (t.live) {
      void *p = (void *)1;
      if (BKGetPtr(t.p, BK_INSTRUMENT, &p, sizeof p) != 0) bad("instrument not readable");
      void *want = t.instr >= 0 ? o[INSTR][t.instr].p : nullptr;
      if (p != want) bad("track " + std::to_string(t.idx) + " reports " + (p ? "an" : "no") + " instrument, expected " + (want ? "instrument " + std::to_string(t.instr) : "none"));
    }
    for (int k : {UNIT, TRACK}) for (auto &u : o[k]) if (u.live) for (BKEnum at : {(BKEnum)BK_SAMPLE, (BKEnum)BK_WAVEFORM}) {
      void *p = nullptr;
      if (BKGetPtr(u.p, at, &p, sizeof p) != 0) continue;
      bool ok = p == nullptr;
      for (auto &d : o[DATA]) if (d.live && d.p == p) ok = true;
      if (!ok) bad(std::string(kn[k]) + " " + std::to_string(u.idx) + " reports disposed data");
    }
  }
  void op() {
    const char *pre = inCb ? "  (callback) " : "";
    int k = c.pick({TRACK, TRACK, TRACK, UNIT, DIVIDER, DIVIDER, CLOCK, CLOCK, INSTR, INSTR, DATA, DATA, CTX});
    int i = pickObj(k);
    Obj &x = o[k][i];
    if (!x.live) { if (!busy(k, i)) create(k, i); return; }
    int what = c.weighted({12, 3});
    if (what == 1) { dispose(k, i); return; }
    int ci = pickObj(CTX);
    Obj &cx = o[CTX][ci];
    switch (k) {
      case CTX:
        switch (inCb ? (int)c.range(1, 2) : (int)c.weighted({6, 1, 1})) {
          case 0: play(i); break;
          case 1: { BKTime t = mkTime((double)c.range(30, 500)); c.note("%scontext %d: clock period %lld", pre, i, (long long)t); expect("clock period", BKSetPtr(x.p, BK_CLOCK_PERIOD, &t, sizeof t), 0); break; }
          default: c.note("context %d reset", i); BKContextReset((BKContext *)x.p); for (auto &t : o[TRACK]) if (t.live && t.ctx == i) t.instr = -1; break;
        }
        break;
      case UNIT: case TRACK: {
        switch (c.weighted({5, 3, 4, 4, 4, 1})) {
          case 0: {
            if (!cx.live) break;
            c.note("%sattach %s %d to context %d", pre, kn[k], i, ci);
            int r = k == TRACK ? BKTrackAttach((BKTrack *)x.p, (BKContext *)cx.p) : BKUnitAttach((BKUnit *)x.p, (BKContext *)cx.p);
            if (x.ctx >= 0) expect("attaching again", r, BK_INVALID_STATE);
            else if (x.dataSet && r == BK_INVALID_NUM_CHANNELS) break;
            else expect("attaching", r, 0);
            if (r == 0) { x.ctx = ci; relinked++; }
            break;
          }
          case 1: c.note("%sdetach %s %d", pre, kn[k], i); if (k == TRACK) BKTrackDetach((BKTrack *)x.p); else BKUnitDetach((BKUnit *)x.p); x.ctx = -1; break;
          case 2: {
            Obj &d = o[DATA][pickObj(DATA)]; bool none = c.chance(1, 6), custom = c.flip();
            if (!d.live && !none) break;
            c.note("%s%s %d: %s data %d", pre, kn[k], i, custom ? "waveform" : "sample", none ? -1 : d.idx);
            int r = BKSetPtr(x.p, custom ? BK_WAVEFORM : BK_SAMPLE, none ? nullptr : d.p, sizeof(void *));
            if (x.ctx < 0) { if (r != 0) expect("data of a detached source", r, BK_INVALID_STATE); }   // 0: had it already
            else if (none || (d.frames && (d.nch == 1 || (!custom && d.nch == o[CTX][x.ctx].nch)))) expect("setting data", r, 0);
            else if (!d.frames && r == 0) bad("empty data accepted");
            x.dataSet = true;
            break;
          }
          case 3:
            if (k == UNIT) { int ph = (int)c.range(-1, 40); c.note("%sunit %d: phase %d, unmuted", pre, i, ph); BKSetAttr(x.p, BK_PHASE, ph); BKSetAttr(x.p, BK_MUTE, 0); break; }
            else {
              bool none = c.chance(1, 6); Obj &in = o[INSTR][pickObj(INSTR)];
              if (!none && !in.live) break;
              c.note("%strack %d: instrument %d", pre, i, none ? -1 : in.idx);
              expect("instrument", BKSetPtr(x.p, BK_INSTRUMENT, none ? nullptr : in.p, sizeof(void *)), 0); x.instr = none ? -1 : in.idx;
            }
            break;
          case 4:
            if (k == TRACK) {
              int n = c.weighted({5, 2, 1});
              int v = n == 0 ? (int)c.range(20, 70) * FU : n == 1 ? BK_NOTE_RELEASE : BK_NOTE_MUTE;
              c.note("%strack %d: note %d", pre, i, v); expect("note", BKSetAttr(x.p, BK_NOTE, v), 0);
            } else { c.note("%sunit %d: repeat", pre, i); BKSetAttr(x.p, BK_SAMPLE_REPEAT, c.pick({(int)BK_REPEAT, (int)BK_PALINDROME, 0})); }
            break;
          default:
            if (k == TRACK) { bool rs = c.flip(); c.note("%strack %d: %s", pre, i, rs ? "reset" : "clear"); if (rs) BKTrackReset((BKTrack *)x.p); else BKTrackClear((BKTrack *)x.p); x.instr = -1; }
            else { c.note("%sunit %d: square", pre, i); BKSetAttr(x.p, BK_WAVEFORM, BK_SQUARE); }
        }
        break;
      }
      case INSTR: {
        BKInstrument *p = (BKInstrument *)x.p;
        int seq = (int)c.draw(4); BKInt v[4]; BKSequencePhase ph[4]; int n = (int)c.range(1, 4);
        for (int j = 0; j < n; j++) { v[j] = (int)c.range(0, 15) * (seq == BK_SEQUENCE_PITCH ? FU / 4 : seq == BK_SEQUENCE_DUTY_CYCLE ? 1 : 2000); ph[j].steps = (BKUInt)c.range(1, 4); ph[j].value = v[j]; }
        int off = (int)c.range(0, n), len = (int)c.range(off < n, std::max(n - off, 0));
        switch (c.weighted({4, 4, 2, 2, 1})) {
          case 0: c.note("%sinstrument %d: sequence %d of %d values", pre, i, seq, n); expect("sequence", BKInstrumentSetSequence(p, seq, v, n, off, len), 0); break;
          case 1: c.note("%sinstrument %d: envelope %d of %d values", pre, i, seq, n); expect("envelope", BKInstrumentSetEnvelope(p, seq, ph, n, off, len), 0); break;
          case 2: c.note("%sinstrument %d: ADSR", pre, i); expect("ADSR", BKInstrumentSetEnvelopeADSR(p, (BKUInt)c.range(0, 5), (BKUInt)c.range(0, 5), (BKInt)c.range(0, 32767), (BKUInt)c.range(0, 5)), 0); break;
          case 3: c.note("%sinstrument %d: sequence %d removed", pre, i, seq); expect("no sequence", BKInstrumentSetSequence(p, seq, nullptr, 0, 0, 0), 0); break;
          default: c.note("%sinstrument %d detached", pre, i); BKInstrumentDetach(p); unlink(INSTR, i);
        }
        break;
      }
      case DATA: {
        BKData *p = (BKData *)x.p;
        switch (c.weighted({6, 2, 2, 1, 1})) {
          case 0: case 1: {
            int ch = c.weighted({4, 1, 1}) + 1, n = (int)c.range(2, 60); bool copy = c.chance(2, 3);
            Frames *f = new Frames((size_t)n * ch); for (auto &s : *f) s = (BKFrame)c.pick({12000, -12000, 0, 500});
            c.note("%sdata %d: %d frames of %d channels%s", pre, i, n, ch, copy ? "" : ", not copied");
            expect("frames", BKDataSetFrames(p, f->data(), n, ch, copy), 0); x.frames = true; x.nch = ch;
            // frames lent before are not used any more
            for (auto q : x.lent) delete q;
            x.lent.clear();
            if (copy) delete f; else x.lent.push_back(f);
            break;
          }
          case 2: c.note("%sdata %d normalised", pre, i); if (x.frames) expect("normalise", BKDataNormalize(p), 0); break;
          case 3: { if (!x.frames) break; c.note("%sdata %d converted", pre, i); BKDataConvertInfo inf; memset(&inf, 0, sizeof inf); inf.targetNumBits = 4; expect("convert", BKDataConvert(p, &inf), 0); break; }
          default: c.note("%sdata %d detached", pre, i); BKDataDetach(p);
        }
        break;
      }
      case CLOCK: {
        BKClock *p = (BKClock *)x.p;
        if (busy(CLOCK, i)) break;
        switch (c.weighted({6, 2, 1, 1})) {
          case 0: {
            if (!cx.live) break;
            int how = (int)c.draw(3); BKClock *before = nullptr; Obj &b = o[CLOCK][pickObj(CLOCK)];
            if (how == 1) before = (BKClock *)BK_FIRST_ELEMENT_PTR;
            if (how == 2 && b.live && &b != &x) before = (BKClock *)b.p; else if (how == 2) how = 0;
            c.note("%sclock %d attached to context %d%s", pre, i, ci, how == 1 ? ", first" : how == 2 ? (", before clock " + std::to_string(b.idx)).c_str() : "");
            int want = x.ctx >= 0 ? (int)BK_INVALID_STATE : how == 2 && b.ctx != ci ? (int)BK_INVALID_VALUE : 0;
            int r = BKClockAttach(p, (BKContext *)cx.p, before);
            expect("attaching the clock", r, want);
            if (r == 0) { x.ctx = ci; relinked++; }
            break;
          }
          case 1: c.note("%sclock %d detached", pre, i); BKClockDetach(p); x.ctx = -1; break;
          case 2: c.note("%sclock %d reset", pre, i); BKClockReset(p); break;
          default: c.note("%sclock %d period", pre, i); BKClockSetPeriod(p, mkTime((double)c.range(20, 300)));
        }
        break;
      }
      case DIVIDER: {
        BKDivider *p = (BKDivider *)x.p;
        if (busy(DIVIDER, i)) break;
        switch (c.weighted({4, 4, 2, 1})) {
          case 0: {
            Obj &q = o[CLOCK][pickObj(CLOCK)];
            if (!q.live) break;
            c.note("%sdivider %d attached to clock %d", pre, i, q.idx);
            bool was = x.gclock >= 0 || x.gctx >= 0;
            int r = BKDividerAttachToClock(p, (BKClock *)q.p);
            expect("attaching the divider", r, was ? (int)BK_INVALID_STATE : 0);
            if (r == 0) { x.gclock = q.idx; relinked++; }
            break;
          }
          case 1: {
            if (!cx.live) break;
            bool was = x.gclock >= 0 || x.gctx >= 0;
            if (was) break;
            BKEnum type = c.pick({(BKEnum)BK_CLOCK_TYPE_BEAT, (BKEnum)BK_CLOCK_TYPE_EFFECT});
            c.note("%sdivider %d attached to context %d (%d)", pre, i, ci, (int)type);
            expect("attaching the divider", BKContextAttachDivider((BKContext *)cx.p, p, type), 0); x.gctx = ci; relinked++;
            break;
          }
          case 2: c.note("%sdivider %d detached", pre, i); BKDividerDetach(p); x.gclock = x.gctx = -1; break;
          default: c.note("%sdivider %d reset", pre, i); BKDividerReset(p);
        }
        break;
      }
    }
  }
  void play(int i) {
    Obj &x = o[CTX][i];
    int n = (int)c.logRange(1, 900);
    c.note("context %d plays %d", i, n);
    std::vector<BKFrame> *f = new std::vector<BKFrame>((size_t)n * x.nch);
    running = i; nestLeft = 4;
    int r = BKContextGenerate((BKContext *)x.p, f->data(), n);
    running = -1; nestLeft = 0;
    if (r < 0 || r > n) bad("generate returned " + std::to_string(r));
    if (r == n) for (auto s : *f) if (s) { played++; break; }
    delete f;
  }
  void step() { op(); if (err.empty()) links(); CHECK(c, err.empty(), "%s", err.c_str()); }
};
static void test(Case &c) {
  World *w = new World(c);
  static const int maxN[KINDS] = {2, 2, 4, 2, 2, 3, 4};
  for (int k = 0; k < KINDS; k++) { w->o[k].resize((size_t)c.range(1, maxN[k])); for (size_t i = 0; i < w->o[k].size(); i++) { w->o[k][i].kind = k; w->o[k][i].idx = (int)i; } }
  long base = vp_live, bytes = vp_live_bytes;
  if (c.chance(3, 4)) for (int k = 0; k < KINDS; k++) for (size_t i = 0; i < w->o[k].size(); i++) w->create(k, (int)i);
  // most sources start attached
  for (int k : {UNIT, TRACK}) for (auto &x : w->o[k]) if (x.live && w->o[CTX][0].live && c.chance(2, 3)) { w->expect("attaching", k == TRACK ? BKTrackAttach((BKTrack *)x.p, (BKContext *)w->o[CTX][0].p) : BKUnitAttach((BKUnit *)x.p, (BKContext *)w->o[CTX][0].p), 0); x.ctx = 0; }
  // many play a sample
  if (c.flip()) {
    for (auto &d : w->o[DATA]) if (d.live && !d.frames) { int n = (int)c.range(2, 60); Frames f(n); for (auto &s : f) s = (BKFrame)c.pick({12000, -12000, 0, 500}); c.note("data %d: %d frames", d.idx, n); w->expect("frames", BKDataSetFrames((BKData *)d.p, f.data(), n, 1, 1), 0); d.frames = true; d.nch = 1; }
    for (int k : {UNIT, TRACK}) for (auto &x : w->o[k]) if (x.live && x.ctx >= 0 && c.chance(3, 4)) {
      Obj &d = w->o[DATA][w->pickObj(DATA)];
      if (!d.live) continue;
      c.note("%s %d plays sample %d", kn[k], x.idx, d.idx);
      w->expect("setting data", BKSetPtr(x.p, BK_SAMPLE, d.p, sizeof(void *)), 0); x.dataSet = true;
      if (k == UNIT) BKSetAttr(x.p, BK_MUTE, 0); else BKSetAttr(x.p, BK_NOTE, (int)c.range(40, 80) * FU);
    }
  }
  int n = (int)c.range(5, c.thorough ? 120 : 60);
  for (int i = 0; i < n; i++) w->step();
  // dispose of all in a random order
  std::vector<std::pair<int, int>> left;
  for (int k = 0; k < KINDS; k++) for (auto &x : w->o[k]) if (x.live) left.push_back({k, x.idx});
  while (left.size()) {
    size_t j = c.draw((uint32_t)left.size());
    w->dispose(left[j].first, left[j].second); left.erase(left.begin() + j); w->links();
    CHECK(c, w->err.empty(), "%s", w->err.c_str());
    if (left.size() && c.chance(1, 4)) for (auto &x : w->o[CTX]) if (x.live) w->play(x.idx);
    for (size_t q = 0; q < left.size();) if (!w->o[left[q].first][left[q].second].live) left.erase(left.begin() + q); else q++;
  }
  for (int k = 0; k < KINDS; k++) for (auto &x : w->o[k]) if (x.live) w->dispose(k, x.idx);
  CHECK(c, w->err.empty(), "%s", w->err.c_str());
  CHECK(c, vp_live == base && vp_live_bytes == bytes, "%ld allocations with %ld bytes were not released", vp_live - base, vp_live_bytes - bytes);
  if (w->sampleCbs) c.label("sample callbacks");
  if (w->sampleOps) c.label("object operations inside sample callbacks");
  if (w->cbOps) c.label("object operations inside callbacks");
  if (w->played) c.label("audible");
  if (w->disposedLinked >= 3) c.label("3 or more links cut by disposal");
  if (w->disposedLinked && w->played && w->relinked) c.nontrivial();
  delete w;
}
std::vector<vp::Property> vp_properties() {
  return {{"C23", "histories of up to 60 (thorough 120) operations on up to 2 contexts, 2 units, 4 tracks, 2 instruments, 2 data objects, 3 clocks and 4 dividers, allocated or in place, also from inside clock, divider and sample callbacks, then disposal in random order; non-trivial: a linked object was disposed, something was attached and audio was produced", 305000, 3050000, test, {}}};
}
VP_MAIN
