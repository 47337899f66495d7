#ifndef VP_COMMON_H
#define VP_COMMON_H
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <memory>
extern "C" {
#include "BlipKit.h"
extern void BKTrackClear(BKTrack *);
void vp_fill(void *p, size_t n);
void vp_set_fill(int mode, uint64_t seed);
void vp_arm(long at, long from);
void vp_case_reset(uint64_t seed);
extern long vp_live, vp_live_bytes, vp_allocs, vp_fail_at, vp_fail_from, vp_count, vp_failed;
extern int vp_fill_disabled;
}
#include "engine.h"
using vp::Case;
typedef std::vector<BKFrame> Frames;

std::vector<vp::Property> vp_properties();
// what a clock or divider callback finds in its info; the narrow build (C32) lays it out differently
struct NarrowInfo { void *object; BKEnum event; BKInt frames; BKFUInt20 frac; BKUInt divider; };
#ifdef VP_NARROW
static inline BKUInt infoDivider(BKCallbackInfo *i) { return ((NarrowInfo *)i)->divider; }
static inline void infoSetDivider(BKCallbackInfo *i, BKUInt d) { ((NarrowInfo *)i)->divider = d; }
static inline void infoSetNext(BKCallbackInfo *i, BKTime t) { ((NarrowInfo *)i)->frames = (BKInt)(t >> 20); ((NarrowInfo *)i)->frac = (BKFUInt20)(t & (BK_FINT20_UNIT - 1)); }
static inline BKTime infoNext(BKCallbackInfo *i) { return ((BKTime)((NarrowInfo *)i)->frames << 20) + ((NarrowInfo *)i)->frac; }
#define VP_MAIN
#else
static inline BKUInt infoDivider(BKCallbackInfo *i) { return i->divider; }
static inline void infoSetDivider(BKCallbackInfo *i, BKUInt d) { i->divider = d; }
static inline void infoSetNext(BKCallbackInfo *i, BKTime t) { i->nextTime = t; }
static inline BKTime infoNext(BKCallbackInfo *i) { return i->nextTime; }
#define VP_MAIN VP_MAIN_NOW
#endif
#define VP_MAIN_NOW int main(int c, char **v) { return vp::main_impl(c, v, vp_properties()); }

static const int FU = BK_FINT20_UNIT;
static inline BKTime mkTime(double frames) { return (BKTime)(frames * (double)FU); }

// uninitialised-looking storage for an in-place object, with ASan red zones
template <class T> struct Raw {
  T *p;
  Raw() { p = (T *)::malloc(sizeof(T)); }
  ~Raw() { ::free(p); }
  Raw(const Raw &) = delete;
  T *operator->() { return p; }
};

static inline std::string framesStr(const BKFrame *f, size_t n, size_t max = 24) {
  std::string s = "[";
  for (size_t i = 0; i < n && i < max; i++) s += (i ? "," : "") + std::to_string(f[i]);
  if (n > max) s += ",...";
  return s + "]";
}
static inline size_t firstDiff(const Frames &a, const Frames &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return i;
  return n;
}
// number of frames differing from zero
static inline size_t energy(const Frames &f) { size_t n = 0; for (auto x : f) n += x != 0; return n; }

// ------------------------------------------------------------------ scenes
// A scene is data: sources, instruments, samples, clocks and timed operations. A Player executes it.
enum OpKind { OP_ATTR, OP_EFFECT, OP_ARP, OP_INSTR, OP_DATA, OP_RANGE, OP_SUSTAIN, OP_DETACH, OP_ATTACH,
              OP_KERNEL, OP_CLOCKPERIOD, OP_CLEAR, OP_NOP, OP_RESET };
struct Op {
  int64_t at = 0;      // frame position (or tick number for divider programs)
  OpKind kind = OP_NOP;
  int target = 0;
  BKEnum attr = 0;
  std::vector<int> v;
};
struct DataSpec { int channels = 1; Frames frames; int pitch = 0; };
struct SeqSpec { int kind = 0; /*0 none 1 simple 2 envelope*/ std::vector<int> values; std::vector<int> steps; int off = 0, len = 0; };
struct InstrSpec { SeqSpec seq[4]; bool adsr = false; int a = 0, d = 0, s = 0, r = 0; };
struct SourceSpec { bool track = false; bool alloc = false; BKEnum wave = BK_SQUARE; std::vector<Op> init; bool attached = true; };
struct DividerSpec { int where = 0; /*0 effect 1 beat 2.. own clock index+2*/ int count = 1; std::vector<Op> program; /* op i runs at tick i % size */ };
struct ClockSpec { double period = 100; bool front = false; };
struct Scene {
  int channels = 1, rate = 44100, kernel = -1;
  bool ctxAlloc = false;
  std::vector<DataSpec> data;
  std::vector<InstrSpec> instrs;
  std::vector<SourceSpec> sources;
  std::vector<ClockSpec> clocks;
  std::vector<DividerSpec> dividers;
  std::vector<Op> ops;     // sorted by position
  int64_t length = 0;
  double masterPeriod = 0; // frames, 0 = default
};

static const char *attrName(BKEnum a) {
  switch (a) {
#define N(x) case x: return #x;
    N(BK_WAVEFORM) N(BK_DUTY_CYCLE) N(BK_PERIOD) N(BK_PHASE) N(BK_PHASE_WRAP) N(BK_NUM_PHASES) N(BK_MASTER_VOLUME) N(BK_VOLUME)
    N(BK_VOLUME_0) N(BK_VOLUME_1) N(BK_VOLUME_2) N(BK_VOLUME_3) N(BK_VOLUME_4) N(BK_VOLUME_5) N(BK_VOLUME_6) N(BK_VOLUME_7)
    N(BK_MUTE) N(BK_PITCH) N(BK_SAMPLE_RANGE) N(BK_SAMPLE_REPEAT) N(BK_SAMPLE_SUSTAIN_RANGE) N(BK_SAMPLE_IMMED_RELEASE)
    N(BK_SAMPLE_PERIOD) N(BK_SAMPLE_PITCH) N(BK_SAMPLE_CALLBACK) N(BK_FLAG_RELEASE) N(BK_NOTE) N(BK_ARPEGGIO) N(BK_PANNING) N(BK_INSTRUMENT)
    N(BK_CLOCK_PERIOD) N(BK_ARPEGGIO_DIVIDER) N(BK_EFFECT_DIVIDER) N(BK_INSTRUMENT_DIVIDER) N(BK_TRIANGLE_IGNORES_VOLUME)
    N(BK_SQUARE) N(BK_TRIANGLE) N(BK_NOISE) N(BK_SAWTOOTH) N(BK_SINE) N(BK_CUSTOM) N(BK_SAMPLE)
    N(BK_EFFECT_VOLUME_SLIDE) N(BK_EFFECT_PANNING_SLIDE) N(BK_EFFECT_PORTAMENTO) N(BK_EFFECT_TREMOLO) N(BK_EFFECT_VIBRATO)
    N(BK_NUM_CHANNELS) N(BK_SAMPLE_RATE) N(BK_TIME) N(BK_PULSE_KERNEL) N(BK_NUM_FRAMES)
#undef N
  }
  return "?";
}
static std::string opStr(const Op &o) {
  static const char *kn[] = {"attr", "effect", "arpeggio", "instrument", "data", "range", "sustain", "detach", "attach", "kernel", "clockperiod", "clear", "nop", "reset"};
  std::string s = "@" + std::to_string(o.at) + " src" + std::to_string(o.target) + " " + kn[o.kind];
  if (o.kind == OP_ATTR || o.kind == OP_EFFECT || o.kind == OP_DATA) s += std::string(" ") + attrName(o.attr);
  for (int x : o.v) s += " " + std::to_string(x);
  return s;
}

struct Player;
struct DivCtx { Player *pl; int idx; int tick; };

struct Player {
  const Scene &sc;
  BKContext *ctx = nullptr;
  std::unique_ptr<Raw<BKContext>> ctxRaw;
  struct Src { BKTrack *t = nullptr; BKUnit *u = nullptr; void *raw = nullptr; bool attached = false; };
  std::vector<Src> src;
  std::vector<BKData *> data;
  std::vector<BKInstrument *> instr;
  std::vector<BKClock *> clocks;
  std::vector<BKDivider *> dividers;
  std::vector<std::unique_ptr<DivCtx>> dctx;
  int64_t pos = 0;
  size_t nextOp = 0;
  std::vector<int> attachOrder;   // optional permutation of sources
  std::vector<int> only;          // if not empty: sources included
  int channelsOverride = 0;
  long ticks = 0;
  std::function<void(BKContext *)> atContext; // called when the context is made and nothing is attached to it
  std::function<void()> inTick;   // called inside every divider callback
  std::function<bool(const Op &)> via; // applies an operation in another way
  std::string err;
  std::vector<int> status;        // status of each API call, in order

  Player(const Scene &s) : sc(s) {}
  void chk(const char *what, int r) { status.push_back(r); (void)what; }
  bool included(int i) const { return only.empty() || std::find(only.begin(), only.end(), i) != only.end(); }

  void setup() {
    int nch = channelsOverride ? channelsOverride : sc.channels;
    if (sc.ctxAlloc) { if (BKContextAlloc(&ctx, nch, sc.rate) != 0) { err = "context alloc"; return; } }
    else { ctxRaw.reset(new Raw<BKContext>()); ctx = ctxRaw->p; if (BKContextInit(ctx, nch, sc.rate) != 0) { err = "context init"; return; } }
    if (sc.kernel >= 0) BKSetPtr(ctx, BK_PULSE_KERNEL, (void *)BKBufferPulseKernels[sc.kernel], sizeof(void *));
    if (sc.masterPeriod > 0) { BKTime t = mkTime(sc.masterPeriod); BKSetPtr(ctx, BK_CLOCK_PERIOD, &t, sizeof t); }
    if (atContext) atContext(ctx);
    for (auto &d : sc.data) {
      BKData *p; BKDataAlloc(&p);
      chk("data", BKDataSetFrames(p, d.frames.data(), d.frames.size() / d.channels, d.channels, 1));
      if (d.pitch) BKSetAttr(p, BK_SAMPLE_PITCH, d.pitch);
      data.push_back(p);
    }
    for (auto &in : sc.instrs) {
      BKInstrument *p; BKInstrumentAlloc(&p);
      setInstr(p, in);
      instr.push_back(p);
    }
    for (size_t i = 0; i < sc.sources.size(); i++) {
      Src s;
      auto &sp = sc.sources[i];
      if (included((int)i)) {
        BKEnum w = (sp.wave == BK_CUSTOM || sp.wave == BK_SAMPLE) ? (BKEnum)BK_SQUARE : sp.wave;
        if (sp.track) {
          if (sp.alloc) BKTrackAlloc(&s.t, w);
          else { s.raw = ::malloc(sizeof(BKTrack)); s.t = (BKTrack *)s.raw; BKTrackInit(s.t, w); }
          s.u = (BKUnit *)s.t;
        } else {
          s.raw = ::malloc(sizeof(BKUnit)); s.u = (BKUnit *)s.raw; BKUnitInit(s.u, w);
        }
      }
      src.push_back(s);
    }
    std::vector<int> order = attachOrder;
    if (order.empty()) for (size_t i = 0; i < src.size(); i++) order.push_back((int)i);
    for (int i : order) if (src[i].u && sc.sources[i].attached) attach(i);
    for (size_t i = 0; i < src.size(); i++) if (src[i].u) for (auto &o : sc.sources[i].init) apply(o);
    for (auto &c : sc.clocks) {
      BKClock *k; BKClockAlloc(&k, mkTime(c.period), NULL);
      chk("clock", BKClockAttach(k, ctx, c.front ? (BKClock *)BK_FIRST_ELEMENT_PTR : NULL));
      clocks.push_back(k);
    }
    for (size_t i = 0; i < sc.dividers.size(); i++) {
      auto &d = sc.dividers[i];
      BKDivider *p;
      dctx.emplace_back(new DivCtx{this, (int)i, 0});
      BKCallback cb; cb.func = divTick; cb.userInfo = dctx.back().get();
      BKDividerAlloc(&p, d.count, &cb);
      if (d.where == 0) BKContextAttachDivider(ctx, p, BK_CLOCK_TYPE_EFFECT);
      else if (d.where == 1) BKContextAttachDivider(ctx, p, BK_CLOCK_TYPE_BEAT);
      else BKDividerAttachToClock(p, clocks[(d.where - 2) % clocks.size()]);
      dividers.push_back(p);
    }
  }
  static BKEnum divTick(BKCallbackInfo *info, void *u) {
    DivCtx *d = (DivCtx *)u;
    auto &prog = d->pl->sc.dividers[d->idx].program;
    d->pl->ticks++;
    if (d->pl->inTick) d->pl->inTick();
    if (!prog.empty()) d->pl->apply(prog[d->tick++ % prog.size()]);
    return 0;
  }
  static void setInstr(BKInstrument *p, const InstrSpec &in) {
    for (int k = 0; k < 4; k++) {
      auto &q = in.seq[k];
      if (q.kind == 1) BKInstrumentSetSequence(p, k, q.values.data(), q.values.size(), q.off, q.len);
      else if (q.kind == 2) {
        std::vector<BKSequencePhase> ph;
        for (size_t i = 0; i < q.values.size(); i++) { BKSequencePhase x; x.steps = q.steps[i]; x.value = q.values[i]; ph.push_back(x); }
        BKInstrumentSetEnvelope(p, k, ph.data(), ph.size(), q.off, q.len);
      }
    }
    if (in.adsr) BKInstrumentSetEnvelopeADSR(p, in.a, in.d, in.s, in.r);
  }
  void attach(int i) {
    Src &s = src[i];
    if (!s.u || s.attached) return;
    chk("attach", s.t ? BKTrackAttach(s.t, ctx) : BKUnitAttach(s.u, ctx));
    s.attached = true;
  }
  void detach(int i) {
    Src &s = src[i];
    if (!s.u || !s.attached) return;
    if (s.t) BKTrackDetach(s.t); else BKUnitDetach(s.u);
    s.attached = false;
  }
  void apply(const Op &o) {
    if (via && via(o)) return;
    if (o.kind == OP_KERNEL) { BKSetPtr(ctx, BK_PULSE_KERNEL, (void *)BKBufferPulseKernels[o.v[0]], sizeof(void *)); return; }
    if (o.kind == OP_CLOCKPERIOD) { BKTime t = (BKTime)o.v[0]; BKSetPtr(ctx, BK_CLOCK_PERIOD, &t, sizeof t); return; }
    if (o.target < 0 || o.target >= (int)src.size()) return;
    Src &s = src[o.target];
    if (!s.u) return;
    void *obj = s.u;
    switch (o.kind) {
      case OP_ATTR: chk("attr", BKSetAttr(obj, o.attr, o.v[0])); break;
      case OP_EFFECT: { std::vector<BKInt> v(o.v.begin(), o.v.end()); chk("effect", BKSetPtr(obj, o.attr, v.data(), v.size() * sizeof(BKInt))); break; }
      case OP_ARP: { std::vector<BKInt> a; a.push_back((BKInt)o.v.size()); for (int x : o.v) a.push_back(x); chk("arp", BKSetPtr(obj, BK_ARPEGGIO, a.data(), a.size() * sizeof(BKInt))); break; }
      case OP_INSTR: chk("instr", BKSetPtr(obj, BK_INSTRUMENT, o.v[0] < 0 ? NULL : instr[o.v[0]], sizeof(void *))); break;
      case OP_DATA: chk("data", BKSetPtr(obj, o.attr, o.v[0] < 0 ? NULL : data[o.v[0]], sizeof(void *))); break;
      case OP_RANGE: { BKInt v[2] = {o.v[0], o.v[1]}; chk("range", BKSetPtr(obj, BK_SAMPLE_RANGE, v, sizeof v)); break; }
      case OP_SUSTAIN: { BKInt v[2] = {o.v[0], o.v[1]}; chk("sustain", BKSetPtr(obj, BK_SAMPLE_SUSTAIN_RANGE, v, sizeof v)); break; }
      case OP_DETACH: detach(o.target); break;
      case OP_ATTACH: attach(o.target); break;
      case OP_CLEAR: if (s.t) BKTrackClear(s.t); break;
      case OP_RESET:     // and begins anew
        if (!s.t) break;
        BKTrackReset(s.t);
        for (auto &q : sc.sources[o.target].init) apply(q);
        break;
      default: break;
    }
  }
  // generate n frames with the given splitter; returns frames delivered
  int64_t produce(Frames &out, int64_t n, const std::function<int64_t(int64_t)> &chunk) {
    int nch = channelsOverride ? channelsOverride : sc.channels;
    int64_t got = 0;
    while (n > 0) {
      int64_t k = std::min(n, std::max<int64_t>(1, chunk(n)));
      size_t base = out.size();
      out.resize(base + (size_t)k * nch);
      // exact-size heap buffer: writing past it is caught
      BKFrame *buf = (BKFrame *)::malloc(sizeof(BKFrame) * k * nch);
      int r = BKContextGenerate(ctx, buf, (BKUInt)k);
      if (r < 0 || r > k) { err = "generate returned " + std::to_string(r) + " for " + std::to_string(k); ::free(buf); out.resize(base); return got; }
      memcpy(out.data() + base, buf, sizeof(BKFrame) * (size_t)r * nch);
      out.resize(base + (size_t)r * nch);
      ::free(buf);
      got += r;
      if (r != k) { err = "generate delivered " + std::to_string(r) + " of " + std::to_string(k) + " frames"; return got; }
      n -= k;
    }
    return got;
  }
  void run(Frames &out, const std::function<int64_t(int64_t)> &chunk) {
    while (err.empty()) {
      while (nextOp < sc.ops.size() && sc.ops[nextOp].at <= pos) apply(sc.ops[nextOp++]);
      int64_t until = sc.length;
      if (nextOp < sc.ops.size()) until = std::min(until, sc.ops[nextOp].at);
      if (until <= pos) break;
      pos += produce(out, until - pos, chunk);
    }
  }
  Frames render() { Frames f; run(f, [](int64_t n) { return n; }); return f; }
  void teardown() {
    for (auto d : dividers) BKDispose(d);
    dividers.clear();
    for (auto &s : src) {
      if (s.u) { BKDispose(s.u); if (s.raw) ::free(s.raw); }
    }
    src.clear();
    for (auto c : clocks) BKDispose(c);
    clocks.clear();
    for (auto i : instr) BKDispose(i);
    instr.clear();
    for (auto d : data) BKDispose(d);
    data.clear();
    if (ctx) BKDispose(ctx);
    ctx = nullptr; ctxRaw.reset();
  }
  ~Player() { teardown(); }
};

// ------------------------------------------------------------------ scene generation
struct SceneOpts {
  int maxSources = 4;
  bool tracks = true, units = true, samples = true, instruments = true, clocks = true, dividers = true, attachOps = true;
  bool kernelOps = true, clockPeriod = true;
  bool tickAttach = false; // sources are attached, detached and reset by callbacks too
  int maxLen = 6000, maxOps = 14;
  double volume = 0.45;    // sum of source volumes
  int channels = 0;        // 0: random
  bool panning = true;
  bool noise = true;
  bool alwaysSource = true;
  bool sampleOps = true;
  bool keepOne = true;     // source 0 stays attached all the time
};

static inline int noteVal(Case &c) {
  // fixed-point note; mostly mid range for audible changes, sometimes extremes
  int n = c.chance(1, 5) ? (int)c.range(BK_C_0, BK_C_8) : (int)c.range(BK_C_2, BK_C_7);
  int frac = c.chance(1, 3) ? (int)c.range(0, FU - 1) : 0;
  int v = n * FU + frac;
  return std::min(v, BK_C_8 * FU);
}
static SeqSpec genSeq(Case &c, int slot) {
  SeqSpec q;
  q.kind = 1 + c.draw(2);
  int n = 1 + c.draw(6);
  for (int i = 0; i < n; i++) {
    int v = 0;
    switch (slot) {
      case BK_SEQUENCE_VOLUME: v = (int)c.range(0, BK_MAX_VOLUME); break;
      case BK_SEQUENCE_PANNING: v = (int)c.range(-BK_MAX_VOLUME, BK_MAX_VOLUME); break;
      case BK_SEQUENCE_PITCH: v = (int)c.range(-12, 12) * FU; break;
      default: v = (int)c.range(1, 15); break;
    }
    q.values.push_back(v);
    q.steps.push_back((int)c.range(1, 12));
  }
  q.off = (int)c.range(0, n);
  q.len = (int)c.range(0, n - q.off);
  if (q.kind == 2 && q.off < n && q.len == 0) q.len = 1;
  return q;
}
static InstrSpec genInstr(Case &c) {
  InstrSpec in;
  if (c.chance(1, 3)) { in.adsr = true; in.a = (int)c.range(0, 20); in.d = (int)c.range(0, 20); in.s = (int)c.range(0, BK_MAX_VOLUME); in.r = (int)c.range(0, 20); }
  else if (c.flip()) in.seq[BK_SEQUENCE_VOLUME] = genSeq(c, BK_SEQUENCE_VOLUME);
  if (c.chance(1, 3)) in.seq[BK_SEQUENCE_PANNING] = genSeq(c, BK_SEQUENCE_PANNING);
  if (c.chance(1, 2)) in.seq[BK_SEQUENCE_PITCH] = genSeq(c, BK_SEQUENCE_PITCH);
  if (c.chance(1, 3)) in.seq[BK_SEQUENCE_DUTY_CYCLE] = genSeq(c, BK_SEQUENCE_DUTY_CYCLE);
  return in;
}
static DataSpec genData(Case &c, int channels, int maxFrames = 300) {
  DataSpec d;
  d.channels = channels;
  int n = (int)c.logRange(2, maxFrames);
  int style = c.draw(3);
  for (int i = 0; i < n; i++)
    for (int k = 0; k < channels; k++) {
      int v;
      if (style == 0) v = (int)c.range(-16000, 16000);
      else if (style == 1) v = (int)(15000 * sin(2 * M_PI * (i * (k + 1)) / n));
      else v = (i * 2 < n) ? 12000 : -12000 + k * 500;
      d.frames.push_back((BKFrame)v);
    }
  if (c.chance(1, 4)) d.pitch = (int)c.range(-12, 12) * FU;
  return d;
}
// one random operation on a source
static Op genOp(Case &c, const Scene &s, int target, const SceneOpts &o, int vol) {
  Op op; op.target = target;
  const SourceSpec &sp = s.sources[target];
  if (sp.track) {
    switch (c.weighted({8, 3, 2, 2, 2, 2, 2, 3, 2, 2, 2, 2, 1})) {
      case 0: op.kind = OP_ATTR; op.attr = BK_NOTE; op.v = {noteVal(c)}; break;
      case 1: op.kind = OP_ATTR; op.attr = BK_NOTE; op.v = {c.flip() ? (int)BK_NOTE_RELEASE : (int)BK_NOTE_MUTE}; break;
      case 2: op.kind = OP_ATTR; op.attr = BK_VOLUME; op.v = {(int)c.range(0, BK_MAX_VOLUME)}; break;
      case 3: op.kind = OP_ATTR; op.attr = BK_PANNING; op.v = {(int)c.range(-BK_MAX_VOLUME, BK_MAX_VOLUME)}; break;
      case 4: op.kind = OP_ATTR; op.attr = BK_DUTY_CYCLE; op.v = {(int)c.range(1, 15)}; break;
      case 5: op.kind = OP_ATTR; op.attr = BK_PITCH; op.v = {(int)c.range(-12 * FU, 12 * FU)}; break;
      case 6: { op.kind = OP_ARP; int n = (int)c.range(0, 4); for (int i = 0; i < n; i++) op.v.push_back((int)c.range(0, 12) * FU); break; }
      case 7: {
        op.kind = OP_EFFECT;
        op.attr = c.pick({(BKEnum)BK_EFFECT_VOLUME_SLIDE, (BKEnum)BK_EFFECT_PANNING_SLIDE, (BKEnum)BK_EFFECT_PORTAMENTO, (BKEnum)BK_EFFECT_TREMOLO, (BKEnum)BK_EFFECT_VIBRATO});
        int amp = op.attr == BK_EFFECT_TREMOLO ? (int)c.range(0, BK_MAX_VOLUME) : (int)c.range(-2 * FU, 2 * FU);
        op.v = {(int)c.range(0, 20), amp, (int)c.range(0, 10)};
        if (c.chance(1, 4)) op.v.resize(1 + c.draw(2));   // the other values are optional
        break;
      }
      case 8:
        op.kind = OP_INSTR;
        op.v = {s.instrs.empty() ? -1 : (int)c.range(-1, (int)s.instrs.size() - 1)};
        break;
      case 9: op.kind = OP_ATTR; op.attr = c.pick({(BKEnum)BK_ARPEGGIO_DIVIDER, (BKEnum)BK_EFFECT_DIVIDER, (BKEnum)BK_INSTRUMENT_DIVIDER}); op.v = {(int)c.range(1, 6)}; break;
      case 10: op.kind = OP_ATTR; op.attr = BK_MASTER_VOLUME; op.v = {(int)c.range(0, vol)}; break;
      case 11:
        if (!s.data.empty() && o.samples) { op.kind = OP_DATA; op.attr = c.flip() ? BK_SAMPLE : BK_WAVEFORM; op.v = {(int)c.range(0, (int)s.data.size() - 1)}; }
        else { op.kind = OP_ATTR; op.attr = BK_WAVEFORM; op.v = {(int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_SINE})}; }
        break;
      default: op.kind = OP_ATTR; op.attr = BK_TRIANGLE_IGNORES_VOLUME; op.v = {(int)c.range(0, 1)}; break;
    }
  } else {
    switch (c.weighted({6, 5, 3, 2, 1, 2, 2})) {
      case 0: op.kind = OP_ATTR; op.attr = BK_PERIOD; op.v = {(int)c.logRange(FU / 8, 40 * FU)}; break;
      case 1: op.kind = OP_ATTR; op.attr = c.chance(1, 2) ? (BKEnum)BK_VOLUME : (BKEnum)(BK_VOLUME_0 + c.draw(s.channels)); op.v = {(int)c.range(0, vol)}; break;
      case 2: op.kind = OP_ATTR; op.attr = BK_DUTY_CYCLE; op.v = {(int)c.range(1, 15)}; break;
      case 3: op.kind = OP_ATTR; op.attr = BK_MUTE; op.v = {(int)c.range(0, 1)}; break;
      case 4: op.kind = OP_ATTR; op.attr = BK_PHASE_WRAP; op.v = {(int)c.range(0, 40)}; break;
      case 5: op.kind = OP_ATTR; op.attr = BK_WAVEFORM; op.v = {(int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_NOISE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_SINE})}; break;
      default:
        if (!s.data.empty() && o.samples) { op.kind = OP_DATA; op.attr = c.flip() ? BK_SAMPLE : BK_WAVEFORM; op.v = {(int)c.range(0, (int)s.data.size() - 1)}; }
        else { op.kind = OP_ATTR; op.attr = BK_MUTE; op.v = {0}; }
        break;
    }
  }
  if (o.sampleOps && (sp.wave == BK_SAMPLE) && c.chance(1, 3)) {
    op = Op(); op.target = target;
    switch (c.draw(4)) {
      case 0: op.kind = OP_ATTR; op.attr = BK_SAMPLE_REPEAT; op.v = {(int)c.range(0, 2)}; break;
      case 1: op.kind = OP_RANGE; op.v = {(int)c.range(-5, 60), (int)c.range(-5, 60)}; break;
      case 2: op.kind = OP_ATTR; op.attr = BK_SAMPLE_PERIOD; op.v = {(int)c.logRange(FU / 16, FU * 16)}; break;
      default: op.kind = OP_ATTR; op.attr = BK_PHASE; op.v = {(int)c.range(-1, 50)}; break;
    }
  }
  return op;
}
static Scene genScene(Case &c, const SceneOpts &o) {
  Scene s;
  s.channels = o.channels ? o.channels : (int)c.pick({2, 1, 2, 2, 3, 8});
  s.rate = (int)c.pick({44100, 48000, 22050, 16000, 96000});
  s.ctxAlloc = c.flip();
  if (o.kernelOps && c.chance(1, 3)) s.kernel = (int)c.draw(2);
  if (o.clockPeriod && c.chance(1, 4)) s.masterPeriod = (double)c.range(20, 1500) + c.draw(16) / 16.0;
  if (o.samples) {
    int nd = (int)c.range(0, 2);
    for (int i = 0; i < nd; i++) s.data.push_back(genData(c, c.chance(1, 4) ? s.channels : 1));
  }
  if (o.instruments && o.tracks) { int ni = (int)c.range(0, 2); for (int i = 0; i < ni; i++) s.instrs.push_back(genInstr(c)); }
  int ns = (int)c.range(o.alwaysSource ? 1 : 0, o.maxSources);
  int vol = (int)(o.volume * BK_MAX_VOLUME / std::max(1, ns));
  for (int i = 0; i < ns; i++) {
    SourceSpec sp;
    sp.track = o.tracks && (!o.units || c.chance(2, 3));
    sp.alloc = c.flip();
    sp.wave = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_SINE, (BKEnum)BK_NOISE, (BKEnum)BK_CUSTOM, (BKEnum)BK_SAMPLE});
    if ((sp.wave == BK_CUSTOM || sp.wave == BK_SAMPLE) && s.data.empty()) sp.wave = BK_SINE;
    s.sources.push_back(sp);
    auto &in = s.sources.back().init;
    auto add = [&](OpKind k, BKEnum a, std::vector<int> v) { Op op; op.kind = k; op.attr = a; op.target = i; op.v = v; in.push_back(op); };
    if (sp.wave == BK_CUSTOM) add(OP_DATA, BK_WAVEFORM, {(int)c.draw((uint32_t)s.data.size())});
    if (sp.wave == BK_SAMPLE) {
      add(OP_DATA, BK_SAMPLE, {(int)c.draw((uint32_t)s.data.size())});
      if (c.flip()) add(OP_ATTR, BK_SAMPLE_REPEAT, {(int)c.range(0, 2)});
    }
    if (sp.track) {
      add(OP_ATTR, BK_MASTER_VOLUME, {vol});
      if (c.flip()) add(OP_ATTR, BK_VOLUME, {(int)c.range(0, BK_MAX_VOLUME)});
      if (o.panning && c.chance(1, 3)) add(OP_ATTR, BK_PANNING, {(int)c.range(-BK_MAX_VOLUME, BK_MAX_VOLUME)});
      if (!s.instrs.empty() && c.flip()) add(OP_INSTR, 0, {(int)c.draw((uint32_t)s.instrs.size())});
      add(OP_ATTR, BK_NOTE, {noteVal(c)});
    } else {
      add(OP_ATTR, BK_PERIOD, {(int)c.logRange(FU / 8, 30 * FU)});
      add(OP_ATTR, BK_VOLUME, {vol});
      if (c.chance(1, 3)) add(OP_ATTR, (BKEnum)(BK_VOLUME_0 + c.draw(s.channels)), {(int)c.range(0, vol)});
      add(OP_ATTR, BK_MUTE, {0});
    }
    if (o.attachOps && c.chance(1, 10) && !(o.keepOne && i == 0)) s.sources.back().attached = false;
  }
  if (o.clocks && c.chance(1, 4)) {
    int nc = (int)c.range(1, 2);
    for (int i = 0; i < nc; i++) { ClockSpec k; k.period = (double)c.range(15, 2000) + c.draw(8) / 8.0; k.front = c.flip(); s.clocks.push_back(k); }
  }
  if (o.dividers && ns && c.chance(1, 2)) {
    int nd = (int)c.range(1, 2);
    for (int i = 0; i < nd; i++) {
      DividerSpec d;
      d.where = (int)c.range(0, 1 + (int)s.clocks.size());
      d.count = (int)c.range(1, 8);
      int np = (int)c.range(1, 4);
      for (int k = 0; k < np; k++) {
        int t = (int)c.draw(ns);
        if (o.tickAttach && c.chance(1, 4)) { Op op; op.kind = c.pick({OP_ATTACH, OP_DETACH, OP_RESET}); op.target = t; if (op.kind != OP_RESET && o.keepOne && t == 0) op.kind = OP_RESET; d.program.push_back(op); }
        else d.program.push_back(genOp(c, s, t, o, vol));
      }
      s.dividers.push_back(d);
    }
  }
  s.length = c.logRange(50, o.maxLen);
  int nops = ns ? (int)c.range(0, o.maxOps) : 0;
  for (int i = 0; i < nops; i++) {
    Op op;
    int t = (int)c.draw(ns);
    int64_t at = c.range(0, s.length - 1);
    if (o.attachOps && c.chance(1, 8) && !(o.keepOne && t == 0)) { op.kind = c.flip() ? OP_ATTACH : OP_DETACH; op.target = t; }
    else if (o.kernelOps && c.chance(1, 20)) { op.kind = OP_KERNEL; op.v = {(int)c.draw(2)}; }
    else if (o.clockPeriod && c.chance(1, 20)) { op.kind = OP_CLOCKPERIOD; op.v = {(int)c.range(10 * FU, 900 * FU)}; }
    else op = genOp(c, s, t, o, vol);
    op.at = at;
    s.ops.push_back(op);
  }
  std::stable_sort(s.ops.begin(), s.ops.end(), [](const Op &a, const Op &b) { return a.at < b.at; });
  return s;
}
static void describe(Case &c, const Scene &s) {
  c.note("context: %d channels, %d Hz, kernel %d, master period %.4f, length %lld", s.channels, s.rate, s.kernel, s.masterPeriod, (long long)s.length);
  for (size_t i = 0; i < s.data.size(); i++) c.note("data%zu: %d ch, %zu frames %s pitch %d", i, s.data[i].channels, s.data[i].frames.size() / s.data[i].channels, framesStr(s.data[i].frames.data(), s.data[i].frames.size(), 8).c_str(), s.data[i].pitch);
  for (size_t i = 0; i < s.instrs.size(); i++) {
    std::string d;
    for (int k = 0; k < 4; k++) if (s.instrs[i].seq[k].kind) {
      auto &q = s.instrs[i].seq[k];
      d += " slot" + std::to_string(k) + (q.kind == 1 ? "=seq[" : "=env[");
      for (size_t j = 0; j < q.values.size(); j++) d += (q.kind == 2 ? std::to_string(q.steps[j]) + ":" : std::string()) + std::to_string(q.values[j]) + " ";
      d += "] sustain " + std::to_string(q.off) + "+" + std::to_string(q.len);
    }
    if (s.instrs[i].adsr) d += " adsr " + std::to_string(s.instrs[i].a) + "," + std::to_string(s.instrs[i].d) + "," + std::to_string(s.instrs[i].s) + "," + std::to_string(s.instrs[i].r);
    c.note("instr%zu:%s", i, d.c_str());
  }
  for (size_t i = 0; i < s.sources.size(); i++) {
    auto &sp = s.sources[i];
    std::string d;
    for (auto &o : sp.init) d += "; " + opStr(o);
    c.note("src%zu: %s %s%s%s", i, sp.track ? "track" : "unit", attrName(sp.wave), sp.attached ? "" : " (not attached)", d.c_str());
  }
  for (auto &k : s.clocks) c.note("clock period %.4f%s", k.period, k.front ? " front" : "");
  for (auto &d : s.dividers) { std::string p; for (auto &o : d.program) p += "; " + opStr(o); c.note("divider on %d count %d%s", d.where, d.count, p.c_str()); }
  for (auto &o : s.ops) c.note("%s", opStr(o).c_str());
}
#endif
