#include "common.h"
// C11: attributes of every object kind against a table of what is readable, settable and how values are clamped.
static const BKEnum NAMES[] = {
  0, BK_CONTEXT_ATTR_TYPE, BK_NUM_CHANNELS, BK_SAMPLE_RATE, BK_TIME, BK_PULSE_KERNEL, BK_PULSE_KERNEL + 1,
  BK_TRACK_ATTR_TYPE, BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES, BK_MASTER_VOLUME, BK_VOLUME,
  BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7, BK_MUTE, BK_PITCH, BK_SAMPLE_RANGE, BK_SAMPLE_REPEAT,
  BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_IMMED_RELEASE, BK_SAMPLE_PERIOD, BK_SAMPLE_PITCH, BK_SAMPLE_CALLBACK, BK_FLAG_RELEASE, BK_NOTE, BK_ARPEGGIO, BK_PANNING,
  BK_INSTRUMENT, BK_CLOCK_PERIOD, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_TRIANGLE_IGNORES_VOLUME + 1,
  BK_DATA_ATTR_TYPE, BK_NUM_FRAMES, BK_NUM_FRAMES + 1, BK_WAVEFORM_TYPE, BK_SQUARE, BK_CUSTOM, BK_SAMPLE, BK_SAMPLE + 1,
  BK_EFFECT_TYPE, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO, BK_EFFECT_VIBRATO + 1, BK_EVENT_TYPE, 7 << 12};
static const int NN = sizeof NAMES / sizeof *NAMES;
enum Kind { CTX, UNIT, TRACK, DATA, CLOCK, DIVIDER, INSTR, NKIND };
static const char *kindName[] = {"context", "unit", "track", "data", "clock", "divider", "instrument"};
static bool isVol(BKEnum a) { return a >= BK_VOLUME_0 && a <= BK_VOLUME_7; }
static bool isSlide(BKEnum a) { return a == BK_EFFECT_VOLUME_SLIDE || a == BK_EFFECT_PANNING_SLIDE || a == BK_EFFECT_PORTAMENTO; }
static bool isEffect(BKEnum a) { return a >= BK_EFFECT_VOLUME_SLIDE && a <= BK_EFFECT_VIBRATO; }
static bool unitReadable(BKEnum a) {
  switch (a) { case BK_WAVEFORM: case BK_DUTY_CYCLE: case BK_PERIOD: case BK_PHASE: case BK_PHASE_WRAP: case BK_NUM_PHASES: case BK_MUTE: case BK_SAMPLE_REPEAT:
    case BK_SAMPLE_PERIOD: case BK_SAMPLE_IMMED_RELEASE: case BK_FLAG_RELEASE: return true; default: return isVol(a); }
}
static bool trackOwn(BKEnum a) {
  switch (a) { case BK_MASTER_VOLUME: case BK_VOLUME: case BK_PANNING: case BK_NOTE: case BK_SAMPLE_PITCH: case BK_ARPEGGIO_DIVIDER: case BK_EFFECT_DIVIDER:
    case BK_INSTRUMENT_DIVIDER: case BK_TRIANGLE_IGNORES_VOLUME: return true; default: return isSlide(a); }
}
static bool readable(Kind k, BKEnum a) {
  switch (k) {
    case CTX: return a == BK_NUM_CHANNELS || a == BK_SAMPLE_RATE;
    case UNIT: return unitReadable(a);
    case TRACK: return unitReadable(a) || trackOwn(a);
    case DATA: return a == BK_NUM_FRAMES || a == BK_NUM_CHANNELS || a == BK_SAMPLE_PITCH;
    default: return false;
  }
}
static bool settable(Kind k, BKEnum a) {
  switch (k) {
    case UNIT: return (unitReadable(a) && a != BK_NUM_PHASES) || a == BK_VOLUME;
    case TRACK: return (unitReadable(a) && a != BK_NUM_PHASES) || trackOwn(a) || a == BK_PITCH;
    case DATA: return a == BK_SAMPLE_PITCH;
    default: return false;
  }
}
struct Obj {
  Kind kind; void *p; std::string name;
  bool attached = false;
  // track model
  int effects[5][3] = {{0}}; std::vector<int> arp; BKInstrument *ins = nullptr;
  BKCallback cb = {0, 0};
  int data = -1; bool sample = false, sustain = false; int len = 0, frames = 0; bool reverse = false;
};
struct Snap {
  int ret[NN]; int val[NN];
  void *sample = nullptr; int range[2] = {0, 0}, sus[2] = {0, 0};
};
static Snap snap(Case &c, const Obj &o) {
  Snap s; memset(s.ret, 0, sizeof s.ret);
  for (int i = 0; i < NN; i++) {
    BKInt v = 0x5a5a5a5a;
    s.ret[i] = BKGetAttr(o.p, NAMES[i], &v); s.val[i] = v;
    CHECK(c, (s.ret[i] == 0) == readable(o.kind, NAMES[i]), "reading %s (%#x) of %s gives %d", attrName(NAMES[i]), NAMES[i], o.name.c_str(), s.ret[i]);
    CHECK(c, s.ret[i] == 0 || v == 0x5a5a5a5a, "failing to read %s (%#x) of %s stores %d", attrName(NAMES[i]), NAMES[i], o.name.c_str(), v);
  }
  if (o.kind == UNIT || o.kind == TRACK) {
    CHECK(c, BKGetPtr(o.p, BK_SAMPLE, &s.sample, sizeof(void *)) == 0, "reading BK_SAMPLE");
    if (s.sample) { CHECK(c, BKGetPtr(o.p, BK_SAMPLE_RANGE, s.range, sizeof s.range) == 0 && BKGetPtr(o.p, BK_SAMPLE_SUSTAIN_RANGE, s.sus, sizeof s.sus) == 0, "reading ranges"); }
  }
  if (o.kind == DATA) CHECK(c, BKGetPtr(o.p, BK_SAMPLE_SUSTAIN_RANGE, s.sus, sizeof s.sus) == 0, "reading sustain range of data");
  return s;
}
static int at(const Snap &s, BKEnum a) { for (int i = 0; i < NN; i++) if (NAMES[i] == a) return s.val[i]; return 0; }
// pointer attributes held in the model
static void checkPtrs(Case &c, const Obj &o, const char *when) {
  if (o.kind != TRACK && o.kind != UNIT) return;
  BKCallback *cb = nullptr;
  CHECK(c, BKGetPtr(o.p, BK_SAMPLE_CALLBACK, &cb, sizeof cb) == 0 && cb && cb->func == o.cb.func && cb->userInfo == o.cb.userInfo, "%s: %s does not report the sample callback set", when, o.name.c_str());
  if (o.kind != TRACK) return;
  for (int e = 0; e < 5; e++) for (int size : {12, 4, 8, 16, 7, 20}) {
    unsigned char *b = (unsigned char *)::malloc(size); memset(b, 0x77, size);
    int r = BKGetPtr(o.p, BK_EFFECT_VOLUME_SLIDE + e, b, size);
    CHECK(c, r == 0, "%s: reading %s gives %d", when, attrName(BK_EFFECT_VOLUME_SLIDE + e), r);
    unsigned char w[20] = {0}; memcpy(w, o.effects[e], 12);
    if (memcmp(b, w, size)) { int got[5] = {0}; memcpy(got, b, size); ::free(b); c.fail("%s: %s of %s reads as %d %d %d (size %d), expected %d %d %d", when, attrName(BK_EFFECT_VOLUME_SLIDE + e), o.name.c_str(), got[0], got[1], got[2], size, o.effects[e][0], o.effects[e][1], o.effects[e][2]); }
    ::free(b);
  }
  { int n = (int)o.arp.size() + 1; BKInt *b = (BKInt *)::malloc(n * 4); memset(b, 0x77, n * 4);
    int r = BKGetPtr(o.p, BK_ARPEGGIO, b, n * 4); CHECK(c, r == 0 && b[0] == n - 1, "%s: arpeggio of %s has %d notes, expected %d", when, o.name.c_str(), b[0], n - 1);
    for (int i = 1; i < n; i++) CHECK(c, b[i] == o.arp[i - 1], "%s: arpeggio note %d of %s is %d, expected %d", when, i, o.name.c_str(), b[i], o.arp[i - 1]);
    ::free(b); }
  { void *p = (void *)1; int r = BKGetPtr(o.p, BK_INSTRUMENT, &p, sizeof p); CHECK(c, r == 0 && p == o.ins, "%s: %s does not report its instrument", when, o.name.c_str()); }
}
static void same(Case &c, const Obj &o, const Snap &a, const Snap &b, const std::set<BKEnum> &allowed, const char *what) {
  for (int i = 0; i < NN; i++) {
    if (allowed.count(NAMES[i])) continue;
    CHECK(c, a.val[i] == b.val[i], "%s on %s changes %s (%#x) from %d to %d", what, o.name.c_str(), attrName(NAMES[i]), NAMES[i], a.val[i], b.val[i]);
  }
  if (!allowed.count(BK_SAMPLE)) CHECK(c, a.sample == b.sample, "%s on %s changes its data", what, o.name.c_str());
  if (!allowed.count(BK_SAMPLE_RANGE) && a.sample && b.sample) CHECK(c, !memcmp(a.range, b.range, 8), "%s on %s changes its range", what, o.name.c_str());
  if (!allowed.count(BK_SAMPLE_SUSTAIN_RANGE) && (o.kind == DATA || (a.sample && b.sample))) CHECK(c, !memcmp(a.sus, b.sus, 8), "%s on %s changes its sustain range", what, o.name.c_str());
}
static int clampv(int64_t v, int64_t lo, int64_t hi) { return (int)std::min(std::max(v, lo), hi); }
// expected value after setting; false: not judged
static bool expected(const Obj &o, const Snap &before, BKEnum a, int v, int &out) {
  int tone = 48 << 20;
  switch (a) {
    case BK_WAVEFORM: out = v; return true;
    case BK_DUTY_CYCLE: out = clampv(v, 1, 15); return true;
    case BK_PERIOD: out = clampv(std::abs((int64_t)v), 0, INT32_MAX); return true;
    case BK_PHASE_WRAP: out = v ? std::max(v, 2) : 0; return true;
    case BK_PHASE: {
      if (at(before, BK_WAVEFORM) == BK_SAMPLE) {
        if (o.len < 1) return false;
        if (v < 0) v = o.reverse ? o.len - 1 : 0;
        out = clampv(v, 0, o.len - 1);
      } else out = clampv(v, 0, at(before, BK_NUM_PHASES) - 1);
      return true;
    }
    case BK_MUTE: case BK_SAMPLE_IMMED_RELEASE: case BK_TRIANGLE_IGNORES_VOLUME: out = v != 0; return true;
    case BK_FLAG_RELEASE: if (!o.sample) return false; out = o.sustain ? v != 0 : at(before, a); return true;
    case BK_SAMPLE_REPEAT: out = v == BK_REPEAT || v == BK_PALINDROME ? v : BK_NO_REPEAT; return true;
    case BK_SAMPLE_PERIOD: out = clampv(std::abs((int64_t)v), 1 << 12, 1 << 28); return true;
    case BK_MASTER_VOLUME: case BK_VOLUME: out = clampv(v, 0, BK_MAX_VOLUME); return true;
    case BK_PANNING: out = clampv(v, -(int)BK_MAX_VOLUME, BK_MAX_VOLUME); return true;
    case BK_NOTE: out = v >= 0 ? clampv(v, 0, BK_C_8 << 20) : v == BK_NOTE_RELEASE || v == BK_NOTE_MUTE ? -1 : at(before, a); return true;
    case BK_SAMPLE_PITCH: out = clampv(v, -tone, tone); return true;
    case BK_ARPEGGIO_DIVIDER: case BK_EFFECT_DIVIDER: case BK_INSTRUMENT_DIVIDER: out = v; return true;
    default:
      if (isVol(a)) { out = clampv(v, 0, BK_MAX_VOLUME); return true; }
      if (isSlide(a)) { out = clampv(v, 0, 1 << 16); return true; }
      return false;
  }
}
static std::set<BKEnum> sideEffects(const Obj &o, BKEnum a) {
  std::set<BKEnum> s = {a};
  switch (a) {
    case BK_WAVEFORM: s.insert({BK_PHASE, BK_NUM_PHASES, BK_SAMPLE}); if (o.kind == TRACK) s.insert({BK_PERIOD, BK_SAMPLE_PERIOD}); break;
    case BK_DUTY_CYCLE: case BK_PHASE_WRAP: case BK_FLAG_RELEASE: s.insert(BK_PHASE); break;
    case BK_NOTE: s.insert({BK_MUTE, BK_FLAG_RELEASE, BK_PHASE}); break;
    case BK_VOLUME: if (o.kind == UNIT) for (int i = 0; i < 8; i++) s.insert(BK_VOLUME_0 + i); break;
  }
  return s;
}
static BKEnum cbFunc(BKCallbackInfo *, void *) { return 0; }

static void test(Case &c) {
  vp_set_fill(c.draw(4), 5);
  BKContext *ctx; int nch = (int)c.range(0, 11), rate = (int)c.pick({44100, 100, 15999, 16000, 16001, 96000, 96001, 1000000, 48000});
  c.note("context with %d channels, %d Hz", nch, rate);
  CHECK(c, BKContextAlloc(&ctx, nch, rate) == 0, "context");
  nch = clampv(nch, 1, 8); rate = clampv(rate, 16000, 96000);
  std::vector<BKData *> datas; std::vector<int> dch, dn;
  for (int i = 0; i < 3; i++) {
    BKData *d; BKDataAlloc(&d); Frames f; int n = (int)c.logRange(2, 90), ch = i == 0 ? 1 : i == 1 ? nch : (int)c.range(1, 8);
    for (int k = 0; k < n * ch; k++) f.push_back((BKFrame)(k * 37));
    CHECK(c, BKDataSetFrames(d, f.data(), n, ch, 1) == 0, "frames");
    datas.push_back(d); dch.push_back(ch); dn.push_back(n);
    c.note("data %d: %d frames, %d channels", i, n, ch);
  }
  BKData *empty; BKDataAlloc(&empty); datas.push_back(empty); dch.push_back(0); dn.push_back(0);
  std::vector<BKInstrument *> ins;
  for (int i = 0; i < 2; i++) { BKInstrument *p; BKInstrumentAlloc(&p); if (i) Player::setInstr(p, genInstr(c)); ins.push_back(p); }
  BKClock *clk; BKClockAlloc(&clk, mkTime(100), NULL);
  BKDivider *div; BKDividerAlloc(&div, 3, NULL);
  std::vector<Obj> objs;
  auto addObj = [&](Kind k, void *p, const std::string &n) { Obj o; o.kind = k; o.p = p; o.name = n; objs.push_back(o); };
  addObj(CTX, ctx, "the context");
  int nu = 1 + c.draw(2), nt = 1 + c.draw(2);
  std::vector<BKUnit *> units; std::vector<BKTrack *> tracks;
  for (int i = 0; i < nu; i++) { BKUnit *u = (BKUnit *)::malloc(sizeof(BKUnit)); CHECK(c, BKUnitInit(u, BK_SQUARE) == 0, "unit"); units.push_back(u); addObj(UNIT, u, "unit " + std::to_string(i)); if (c.chance(3, 4)) { CHECK(c, BKUnitAttach(u, ctx) == 0, "attach"); objs.back().attached = true; } }
  for (int i = 0; i < nt; i++) { BKTrack *t; CHECK(c, BKTrackAlloc(&t, BK_SQUARE) == 0, "track"); tracks.push_back(t); addObj(TRACK, t, "track " + std::to_string(i)); if (c.chance(3, 4)) { CHECK(c, BKTrackAttach(t, ctx) == 0, "attach"); objs.back().attached = true; } }
  for (int i = 0; i < 2; i++) addObj(DATA, datas[i], "data " + std::to_string(i));
  addObj(CLOCK, clk, "the clock"); addObj(DIVIDER, div, "the divider"); addObj(INSTR, ins[0], "the instrument");
  CHECK(c, BKSetAttr(NULL, BK_VOLUME, 1) == BK_INVALID_STATE && BKGetAttr(NULL, BK_VOLUME, NULL) == BK_INVALID_STATE && BKSetPtr(NULL, BK_SAMPLE, NULL, 0) == BK_INVALID_STATE && BKGetPtr(NULL, BK_SAMPLE, NULL, 0) == BK_INVALID_STATE, "requests on no object are not refused");
  { BKInt a, b; CHECK(c, BKGetAttr(ctx, BK_NUM_CHANNELS, &a) == 0 && a == nch && BKGetAttr(ctx, BK_SAMPLE_RATE, &b) == 0 && b == rate, "the context reports %d channels, %d Hz, expected %d, %d", a, b, nch, rate); }
  { BKTime t; CHECK(c, BKGetPtr(ctx, BK_CLOCK_PERIOD, &t, sizeof t) == 0, "clock period"); double f = (double)t / FU, w = rate / 240.0; CHECK(c, fabs(f - w) < 0.001, "default clock period %.4f, expected %.4f", f, w); }
  std::vector<Snap> now; for (auto &o : objs) now.push_back(snap(c, o));
  BKTime clockPeriod; BKGetPtr(ctx, BK_CLOCK_PERIOD, &clockPeriod, sizeof clockPeriod);
  int nops = 5 + c.draw(c.thorough ? 120 : 50), okN = 0, rejN = 0, clampN = 0;
  std::vector<int> weights = {1, 8, 14};
  for (int n = 0; n < nops; n++) {
    size_t oi = 0;
    switch (c.weighted({1, 6, 10, 2, 1})) {
      case 0: oi = 0; break;
      case 1: oi = 1 + c.draw(nu); break;
      case 2: oi = 1 + nu + c.draw(nt); break;
      case 3: oi = 1 + nu + nt + c.draw(2); break;
      default: oi = 3 + nu + nt + c.draw(3); break;
    }
    Obj &o = objs[oi];
    Snap before = now[oi];
    char what[200] = "";
    std::set<BKEnum> allowed;
    auto valueFor = [&]() { return (int)c.edgy(INT32_MIN, INT32_MAX, {0, 1, -1, -2, 2, 3, 15, 16, BK_MAX_VOLUME, BK_MAX_VOLUME + 1, -(int)BK_MAX_VOLUME, -(int)BK_MAX_VOLUME - 1, 65536, 65537, BK_C_8 << 20, (BK_C_8 << 20) + 1, BK_C_4 << 20, 4095, 4096, 1 << 28, (1 << 28) + 1, 48 << 20, -(48 << 20) - 1, 20000, BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE, BK_CUSTOM, BK_SAMPLE}); };
    switch (c.weighted({10, (o.kind == UNIT || o.kind == TRACK || o.kind == CTX || o.kind == DATA) ? 7 : 0, o.kind == TRACK || o.kind == UNIT ? 1 : 0})) {
      case 0: {   // set attribute
        BKEnum a = c.chance(1, 6) ? (BKEnum)c.range(0, 8 << 12) : NAMES[c.draw(NN)];
        for (int k = 0; k < 3 && !settable(o.kind, a) && !c.chance(1, 4); k++) a = NAMES[c.draw(NN)];
        int v = a == BK_WAVEFORM && c.flip() ? (int)c.range(BK_SQUARE, BK_SINE) : a == BK_PHASE && c.flip() ? (int)c.range(-2, 40) : valueFor();
        if ((a == BK_ARPEGGIO_DIVIDER || a == BK_EFFECT_DIVIDER || a == BK_INSTRUMENT_DIVIDER) && v < 1) v = 1;
        if (isSlide(a) && v < 0) v = 0;
        bool ok = settable(o.kind, a) && !(a == BK_WAVEFORM && !(v == 0 || (v >= BK_SQUARE && v <= BK_SINE)));
        snprintf(what, sizeof what, "setting %s (%#x) to %d", attrName(a), a, v);
        c.note("%s: %s", o.name.c_str(), what);
        int r = o.kind == UNIT && c.flip() ? BKUnitSetAttr((BKUnit *)o.p, a, v) : o.kind == TRACK && c.flip() ? BKTrackSetAttr((BKTrack *)o.p, a, v) : o.kind == CTX && c.flip() ? BKContextSetAttr(ctx, a, v) : o.kind == DATA && c.flip() ? BKDataSetAttr((BKData *)o.p, a, v) : BKSetAttr(o.p, a, v);
        CHECK(c, (r == 0) == ok, "%s on %s gives %s", what, o.name.c_str(), BKStatusGetName(r));
        CHECK(c, r <= 0, "%s on %s gives %d", what, o.name.c_str(), r);
        Snap after = snap(c, o);
        if (ok) {
          okN++;
          int want;
          if (readable(o.kind, a) && expected(o, before, a, v, want)) {
            CHECK(c, at(after, a) == want, "%s on %s: reads back %d, expected %d (before %d)", what, o.name.c_str(), at(after, a), want, at(before, a));
            if (want != v) clampN++;
          }
          if (a == BK_VOLUME && o.kind == UNIT) for (int i = 0; i < 8; i++) CHECK(c, at(after, BK_VOLUME_0 + i) == clampv(v, 0, BK_MAX_VOLUME), "%s: volume %d reads %d", what, i, at(after, BK_VOLUME_0 + i));
          if (isSlide(a)) { int *e = o.effects[a - BK_EFFECT_VOLUME_SLIDE]; e[0] = clampv(v, 0, 65536); e[1] = e[2] = 0; }
          if (a == BK_WAVEFORM) {
            o.sample = false; o.data = -1; o.len = 0; CHECK(c, after.sample == NULL, "%s: data still reported", what);
            if (v) { static const int ph[] = {16, 32, 8, 7, 32}; CHECK(c, at(after, BK_NUM_PHASES) == ph[v - BK_SQUARE], "%s: %d phases reported", what, at(after, BK_NUM_PHASES)); }
            if (v && before.sample == NULL && at(before, BK_WAVEFORM) == v) CHECK(c, at(after, BK_PHASE) == at(before, BK_PHASE), "%s: the same waveform again moves the phase", what);
          }
          allowed = sideEffects(o, a);
        } else { rejN++; }
        same(c, o, before, after, allowed, what);
        now[oi] = after;
        break;
      }
      case 1: {   // set pointer
        if (o.kind == CTX) {
          if (c.flip()) {
            BKTime t = c.flip() ? mkTime(c.range(10, 3000)) : (BKTime)c.pick({(BKTime)0, (BKTime)-1, (BKTime)(1 << 20), (BKTime)1, -mkTime(100)});
            if (t > 0 && t < mkTime(10)) t = mkTime(10);
            c.note("clock period %.4f", (double)t / FU);
            int r = BKSetPtr(ctx, BK_CLOCK_PERIOD, &t, sizeof t);
            CHECK(c, (r == 0) == (t > 0), "clock period %.4f gives %d", (double)t / FU, r);
            if (r == 0) { clockPeriod = t; okN++; } else { rejN++; }
          } else {
            int k = (int)c.draw(3); const void *kp = k == 2 ? NULL : BKBufferPulseKernels[k]; void *got = NULL;
            c.note("kernel %d", k);
            CHECK(c, BKSetPtr(ctx, BK_PULSE_KERNEL, (void *)kp, sizeof(void *)) == 0 && BKGetPtr(ctx, BK_PULSE_KERNEL, &got, sizeof got) == 0, "kernel");
            CHECK(c, got == (kp ? kp : (const void *)BKBufferPulseKernels[BK_PULSE_KERNEL_HARM]), "the kernel set is not reported");
          }
          BKTime t; BKGetPtr(ctx, BK_CLOCK_PERIOD, &t, sizeof t);
          CHECK(c, t == clockPeriod, "clock period reads %.4f, expected %.4f", (double)t / FU, (double)clockPeriod / FU);
          { BKInt junk; BKEnum bad = c.pick({(BKEnum)BK_TIME, (BKEnum)BK_NUM_CHANNELS, (BKEnum)BK_VOLUME, (BKEnum)0}); BKTime z = mkTime(1); CHECK(c, BKSetPtr(ctx, bad, &z, sizeof z) < 0, "setting %s of the context by pointer is not refused", attrName(bad)); (void)junk; }
          Snap after = snap(c, o); same(c, o, before, after, {}, "pointer request");
          now[oi] = after;
          break;
        }
        if (o.kind == DATA) {
          BKInt v[2] = {(BKInt)c.range(-100, 100), (BKInt)c.range(-100, 100)}; bool null = c.chance(1, 5);
          int nf = dn[oi - 1 - nu - nt];
          c.note("%s: sustain range %d %d%s", o.name.c_str(), v[0], v[1], null ? " NULL" : "");
          int r = BKSetPtr(o.p, BK_SAMPLE_SUSTAIN_RANGE, null ? NULL : v, sizeof v); CHECK(c, r == 0, "sustain range gives %d", r);
          int a = null ? 0 : v[0], b = null ? 0 : v[1];
          if (a == b) a = b = 0;
          if (a < 0) a += nf + 1;
          if (b < 0) b += nf + 1;
          a = clampv(a, 0, nf); b = clampv(b, 0, nf); if (b < a) std::swap(a, b);
          Snap after = snap(c, o);
          CHECK(c, after.sus[0] == a && after.sus[1] == b, "sustain range of data reads %d %d, expected %d %d", after.sus[0], after.sus[1], a, b);
          same(c, o, before, after, {BK_SAMPLE_SUSTAIN_RANGE}, "sustain range"); now[oi] = after; okN++;
          CHECK(c, BKSetPtr(o.p, BK_SAMPLE_RANGE, v, sizeof v) < 0 && BKGetPtr(o.p, BK_SAMPLE_RANGE, v, sizeof v) < 0, "an unknown pointer attribute of data is not refused");
          break;
        }
        int op = o.kind == TRACK ? c.weighted({4, 2, 2, 6, 4, 2, 1, 2}) : c.weighted({5, 3, 3, 0, 0, 0, 1, 2});
        if (op == 0) {         // data
          int d = (int)c.range(-1, 3); BKEnum a = c.flip() ? BK_SAMPLE : BK_WAVEFORM;
          int w = at(before, BK_WAVEFORM), type = a == BK_SAMPLE ? BK_SAMPLE : BK_CUSTOM;
          bool ok = o.attached && (d < 0 || (dn[d] >= 2 && (a == BK_WAVEFORM || dch[d] == 1 || dch[d] == nch)));
          bool again = o.kind == TRACK && a == BK_SAMPLE && w == BK_SAMPLE && d >= 0 && before.sample == datas[d];   // nothing to do
          if (o.kind == TRACK && a == BK_SAMPLE && w == BK_SAMPLE && d < 0 && before.sample == NULL) again = true;
          snprintf(what, sizeof what, "setting data %d as %s", d, attrName(a));
          c.note("%s: %s", o.name.c_str(), what);
          int r = BKSetPtr(o.p, a, d < 0 ? NULL : datas[d], sizeof(void *));
          CHECK(c, (r == 0) == (ok || again), "%s on %s gives %s", what, o.name.c_str(), BKStatusGetName(r));
          Snap after = snap(c, o);
          allowed = {BK_WAVEFORM, BK_PHASE, BK_NUM_PHASES, BK_SAMPLE, BK_SAMPLE_RANGE, BK_SAMPLE_SUSTAIN_RANGE};
          if (again) allowed = {BK_PERIOD, BK_SAMPLE_PERIOD, BK_SAMPLE_PITCH};
          else if (r == 0) {
            if (o.kind == TRACK) allowed.insert({BK_SAMPLE_PITCH, BK_PERIOD, BK_SAMPLE_PERIOD});
            if (d >= 0) {
              CHECK(c, at(after, BK_WAVEFORM) == type, "%s: the waveform reads %s", what, attrName(at(after, BK_WAVEFORM)));
              CHECK(c, after.sample == datas[d], "%s: other data is reported", what);
              CHECK(c, at(after, BK_NUM_PHASES) == (type == BK_SAMPLE ? dn[d] : std::min(dn[d], 64)), "%s: %d phases", what, at(after, BK_NUM_PHASES));
              CHECK(c, at(after, BK_PHASE) == 0, "%s: phase %d", what, at(after, BK_PHASE));
              CHECK(c, after.range[0] == 0 && after.range[1] == dn[d], "%s: range %d..%d", what, after.range[0], after.range[1]);
              if (o.kind == TRACK) { BKInt pt = 0; BKGetAttr(datas[d], BK_SAMPLE_PITCH, &pt); CHECK(c, at(after, BK_SAMPLE_PITCH) == pt, "%s: sample pitch reads %d, that of the data is %d", what, at(after, BK_SAMPLE_PITCH), pt); }
              if (type == BK_SAMPLE) allowed.insert({BK_SAMPLE_REPEAT, BK_SAMPLE_IMMED_RELEASE, BK_FLAG_RELEASE});
              o.sample = type == BK_SAMPLE; o.data = d; o.frames = dn[d]; o.len = o.sample ? dn[d] : 0; o.reverse = false; if (o.sample) { BKInt ds[2] = {0, 0}; BKGetPtr(datas[d], BK_SAMPLE_SUSTAIN_RANGE, ds, sizeof ds); o.sustain = ds[0] != ds[1]; CHECK(c, after.sus[0] == ds[0] && after.sus[1] == ds[1], "%s: sustain range %d..%d, that of the data is %d..%d", what, after.sus[0], after.sus[1], ds[0], ds[1]); }
            } else {
              bool drop = w == type;
              if (drop) { CHECK(c, at(after, BK_WAVEFORM) == 0 && after.sample == NULL, "%s: waveform %s still reported", what, attrName(at(after, BK_WAVEFORM))); o.sample = false; o.data = -1; o.len = 0; if (type == BK_SAMPLE) o.sustain = false; allowed.insert({BK_SAMPLE_REPEAT, BK_SAMPLE_IMMED_RELEASE, BK_FLAG_RELEASE}); }
              else { allowed = {}; if (o.kind == TRACK) allowed = {BK_SAMPLE_PITCH, BK_PERIOD, BK_SAMPLE_PERIOD}; }
            }
            okN++;
          } else {
            // a refused sample silences a unit that played one
            rejN++;
            if (w != BK_CUSTOM && w != BK_SAMPLE) allowed = {};
            else { CHECK(c, at(after, BK_WAVEFORM) == 0 && !after.sample, "%s is refused, but waveform %s is reported", what, attrName(at(after, BK_WAVEFORM))); o.sample = false; o.data = -1; o.len = 0; }
          }
          same(c, o, before, after, allowed, what); now[oi] = after;
        } else if (op == 1 || op == 2) {   // ranges
          BKInt v[2] = {(BKInt)c.range(-60, 100), (BKInt)c.range(-60, 100)}; bool null = c.chance(1, 5); BKEnum a = op == 1 ? BK_SAMPLE_RANGE : BK_SAMPLE_SUSTAIN_RANGE;
          snprintf(what, sizeof what, "%s %d %d%s", attrName(a), v[0], v[1], null ? " (NULL)" : "");
          c.note("%s: %s", o.name.c_str(), what);
          bool ok = at(before, BK_WAVEFORM) == BK_SAMPLE;
          int r = BKSetPtr(o.p, a, null ? NULL : v, sizeof v);
          CHECK(c, (r == 0) == ok, "%s on %s playing %s gives %s", what, o.name.c_str(), attrName(at(before, BK_WAVEFORM)), BKStatusGetName(r));
          Snap after = snap(c, o);
          if (ok) {
            okN++;
            int lim = op == 1 ? o.frames : o.len, x = null ? 0 : v[0], y = null ? (op == 1 ? -1 : 0) : v[1];
            if (op == 2 && x == y) x = y = 0;
            if (x < 0) x += lim + 1;
            if (y < 0) y += lim + 1;
            x = clampv(x, 0, lim); y = clampv(y, 0, lim);
            if (op == 2 && y < x) std::swap(x, y);
            int *g = op == 1 ? after.range : after.sus;
            CHECK(c, g[0] == x && g[1] == y, "%s on %s with %d frames reads %d %d, expected %d %d", what, o.name.c_str(), lim, g[0], g[1], x, y);
            if (op == 1) { o.reverse = x > y; o.len = abs(x - y); o.sustain = false; CHECK(c, at(after, BK_NUM_PHASES) == o.len, "%s: %d phases", what, at(after, BK_NUM_PHASES)); CHECK(c, o.len < 2 || (at(after, BK_PHASE) >= 0 && at(after, BK_PHASE) < o.len), "%s: phase %d is outside of the range", what, at(after, BK_PHASE)); allowed = {BK_PHASE, BK_NUM_PHASES, BK_SAMPLE_RANGE, BK_SAMPLE_SUSTAIN_RANGE}; }
            else { o.sustain = x != y; allowed = {BK_SAMPLE_SUSTAIN_RANGE}; }
          } else rejN++;
          same(c, o, before, after, allowed, what); now[oi] = after;
        } else if (op == 3) {  // effect
          BKEnum a = c.chance(1, 8) ? c.pick({(BKEnum)BK_EFFECT_TYPE, (BKEnum)(BK_EFFECT_VIBRATO + 1), (BKEnum)(BK_EFFECT_TYPE + 0xfff)}) : (BKEnum)(BK_EFFECT_VOLUME_SLIDE + c.draw(5));
          BKInt v[6]; for (auto &x : v) x = (int)c.edgy(0, 1 << 17, {0, 1, 100, BK_MAX_VOLUME, BK_MAX_VOLUME + 1, 65536, 65537});
          if (c.chance(1, 5)) v[1] = -(int)c.range(0, 24 << 20);
          if (c.chance(1, 8)) v[2] = -5;
          int size = (int)c.pick({12, 8, 4, 12, 24, 6, 9, 0}); bool null = c.chance(1, 10); if (null) size = c.flip() ? 0 : 12;
          snprintf(what, sizeof what, "%s %d %d %d, size %d%s", attrName(a), v[0], v[1], v[2], size, null ? " NULL" : "");
          c.note("%s: %s", o.name.c_str(), what);
          unsigned char *b = (unsigned char *)::malloc(std::max(size, 1)); memcpy(b, v, size);
          int r = BKSetPtr(o.p, a, null ? NULL : b, size); ::free(b);
          CHECK(c, (r == 0) == isEffect(a), "%s gives %s", what, BKStatusGetName(r));
          Snap after = snap(c, o);
          if (r == 0) {
            okN++;
            BKInt w[3] = {0}; if (!null) memcpy(w, v, std::min(size, 12));
            int *e = o.effects[a - BK_EFFECT_VOLUME_SLIDE];
            e[0] = clampv(w[0], 0, 65536); e[1] = e[2] = 0;
            if (!isSlide(a)) { e[1] = a == BK_EFFECT_TREMOLO ? clampv(w[1], 0, BK_MAX_VOLUME) : w[1]; e[2] = clampv(w[2], 0, 65536); }
            allowed = {a};
          } else rejN++;
          same(c, o, before, after, allowed, what); now[oi] = after;
        } else if (op == 4) {  // arpeggio
          int n = (int)c.draw(12), claim = c.chance(1, 4) ? (int)c.edgy(INT32_MIN, INT32_MAX, {-1, 8, 9, 100, BK_INT_MAX}) : n, cut = c.chance(1, 4) ? (int)c.draw(n * 4 + 4) : n * 4 + 4; bool null = c.chance(1, 10);
          std::vector<BKInt> v = {claim}; for (int i = 0; i < n; i++) v.push_back((BKInt)c.range(-24 * FU, 24 * FU));
          snprintf(what, sizeof what, "arpeggio of %d (%d given), size %d%s", claim, n, cut, null ? " NULL" : "");
          c.note("%s: %s", o.name.c_str(), what);
          unsigned char *b = (unsigned char *)::malloc(std::max(cut, 1)); memcpy(b, v.data(), cut);
          int r = BKSetPtr(o.p, BK_ARPEGGIO, null ? NULL : b, null ? 0 : cut); ::free(b);
          CHECK(c, r == 0, "%s gives %d", what, r);
          int cnt = null || cut < 4 ? 0 : std::min(clampv(claim, 0, 8), cut / 4 - 1);
          o.arp.assign(v.begin() + 1, v.begin() + 1 + cnt); okN++;
          Snap after = snap(c, o); same(c, o, before, after, {}, what); now[oi] = after;
        } else if (op == 5) {  // instrument
          int i = (int)c.range(-1, 1); c.note("%s: instrument %d", o.name.c_str(), i);
          int r = BKSetPtr(o.p, BK_INSTRUMENT, i < 0 ? NULL : ins[i], sizeof(void *)); CHECK(c, r == 0, "instrument gives %d", r);
          o.ins = i < 0 ? NULL : ins[i]; okN++;
          Snap after = snap(c, o); same(c, o, before, after, {BK_MUTE, BK_NOTE, BK_FLAG_RELEASE}, "setting the instrument"); now[oi] = after;
        } else if (op == 6) {  // callback
          bool null = c.flip(); BKCallback cb = {cbFunc, (void *)(intptr_t)(1 + c.draw(100))};
          c.note("%s: callback%s", o.name.c_str(), null ? " NULL" : "");
          CHECK(c, BKSetPtr(o.p, BK_SAMPLE_CALLBACK, null ? NULL : &cb, sizeof cb) == 0, "callback");
          if (null) cb = {0, 0};
          o.cb = cb; okN++;
          Snap after = snap(c, o); same(c, o, before, after, {}, "setting the callback"); now[oi] = after;
        } else {               // unknown
          BKEnum a = c.pick({(BKEnum)BK_VOLUME, (BKEnum)BK_TIME, (BKEnum)0, (BKEnum)BK_NUM_FRAMES, (BKEnum)BK_CLOCK_PERIOD, (BKEnum)(7 << 12), (BKEnum)BK_PULSE_KERNEL});
          if (o.kind == UNIT && c.flip()) a = c.pick({(BKEnum)BK_INSTRUMENT, (BKEnum)BK_ARPEGGIO, (BKEnum)BK_EFFECT_TREMOLO});
          void *q[8] = {0}; c.note("%s: pointer attribute %#x", o.name.c_str(), a);
          int r = BKSetPtr(o.p, a, q, sizeof q), g = BKGetPtr(o.p, a, q, sizeof q); CHECK(c, r < 0 && g < 0, "pointer attribute %s (%#x) of %s gives %d and %d", attrName(a), a, o.name.c_str(), r, g);
          Snap after = snap(c, o); same(c, o, before, after, {}, "an unknown pointer attribute"); now[oi] = after; rejN++;
        }
        break;
      }
      default: {  // let it run: settings stay, ticks change only what is played
        bool slow = true;
        for (auto &x : objs) if (x.kind == UNIT || x.kind == TRACK) {
          BKInt p = 0; BKGetAttr(x.p, BK_PERIOD, &p); if (p && p < 2048) { BKSetAttr(x.p, BK_PERIOD, 4096); }
          if (x.kind == TRACK) for (int e : {BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER}) { BKInt v; BKGetAttr(x.p, e, &v); if (v < 1) slow = false; }
        }
        if (!slow || clockPeriod > mkTime(20000)) break;
        std::vector<Snap> b4; for (auto &x : objs) b4.push_back(snap(c, x));
        std::vector<BKFrame> buf(8 * 700); int nf = (int)c.range(1, 700); c.note("generate %d", nf);
        BKContextGenerate(ctx, buf.data(), nf);
        for (size_t i = 0; i < objs.size(); i++) {
          Snap after = snap(c, objs[i]);
          std::set<BKEnum> al;
          if (objs[i].kind == TRACK) { al = {BK_PHASE, BK_MUTE, BK_PERIOD, BK_SAMPLE_PERIOD, BK_DUTY_CYCLE, BK_NOTE, BK_FLAG_RELEASE}; for (int k = 0; k < 8; k++) al.insert(BK_VOLUME_0 + k); }
          if (objs[i].kind == UNIT) al = {BK_PHASE, BK_MUTE};
          same(c, objs[i], b4[i], after, al, "generating"); now[i] = after;
          checkPtrs(c, objs[i], "after generating");
        }
        break;
      }
    }
    // nothing else has changed
    for (size_t i = 0; i < objs.size(); i++) {
      if (i != oi) { Snap a = snap(c, objs[i]); same(c, objs[i], now[i], a, {}, ("a request on " + o.name + (what[0] ? std::string(" (") + what + ")" : "")).c_str()); }
      checkPtrs(c, objs[i], what[0] ? what : "after the request");
    }
  }
  if (okN >= 3 && rejN >= 1) c.nontrivial();
  if (clampN) c.label("a value was clamped");
  if (rejN) c.label("a request was refused");
  for (auto t : tracks) BKDispose(t);
  for (auto u : units) { BKDispose(u); ::free(u); }
  for (auto d : datas) BKDispose(d);
  for (auto i : ins) BKDispose(i);
  BKDispose(div); BKDispose(clk); BKDispose(ctx);
}
std::vector<vp::Property> vp_properties() {
  return {{"C11", "random valid, clamped, foreign and unknown attribute and pointer requests (any size) on a context, units, tracks, data, clock, divider and instrument, interleaved with rendering; after each request every readable attribute of every object is compared with a table of readable/settable names, clamped values and permitted side effects; non-trivial: at least 3 accepted and 1 refused request", 67000, 800000, test, {}}};
}
VP_MAIN
