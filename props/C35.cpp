#include "common.h"
// C35: the functions of a class and the generic ones are the same: two renderings of one scene, in the second of which
// every access takes a random one of the ways the headers offer, additional values are read and attributes which do not
// exist are set. Both have to report the same and to sound the same.
static const BKEnum NAMES[] = {
  BK_NUM_CHANNELS, BK_SAMPLE_RATE, BK_TIME, BK_PULSE_KERNEL, BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES, BK_MASTER_VOLUME, BK_VOLUME,
  BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7, BK_MUTE, BK_PITCH, BK_SAMPLE_RANGE, BK_SAMPLE_REPEAT,
  BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_IMMED_RELEASE, BK_SAMPLE_PERIOD, BK_SAMPLE_PITCH, BK_SAMPLE_CALLBACK, BK_FLAG_RELEASE, BK_NOTE, BK_ARPEGGIO, BK_PANNING,
  BK_INSTRUMENT, BK_CLOCK_PERIOD, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_NUM_FRAMES, BK_SAMPLE,
  BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO, 0, BK_TRIANGLE_IGNORES_VOLUME + 1, BK_EFFECT_VIBRATO + 1, 7 << 12};
static const int NN = sizeof NAMES / sizeof *NAMES;
static bool isSlide(BKEnum a) { return a == BK_EFFECT_VOLUME_SLIDE || a == BK_EFFECT_PANNING_SLIDE || a == BK_EFFECT_PORTAMENTO; }
static bool isEffect(BKEnum a) { return a >= BK_EFFECT_VOLUME_SLIDE && a <= BK_EFFECT_VIBRATO; }
struct Ways {
  Case &c; Player &p; long other = 0, refused = 0;
  int pick(int n) { int r = (int)c.draw(n); if (r) other++; return r; }
  bool operator()(const Op &o) {
    if (o.kind == OP_KERNEL) { void *k = (void *)BKBufferPulseKernels[o.v[0]]; if (pick(2)) BKContextSetPtr(p.ctx, BK_PULSE_KERNEL, k); else BKSetPtr(p.ctx, BK_PULSE_KERNEL, k, sizeof k); return true; }
    if (o.kind == OP_CLOCKPERIOD) { BKTime t = o.v[0]; if (pick(2)) BKContextSetPtr(p.ctx, BK_CLOCK_PERIOD, &t); else BKSetPtr(p.ctx, BK_CLOCK_PERIOD, &t, sizeof t); return true; }
    if (o.target < 0 || o.target >= (int)p.src.size()) return true;
    Player::Src &s = p.src[o.target];
    if (!s.u) return true;
    auto ptr = [&](BKEnum attr, void *v, size_t size) {
      int way = pick(2);
      return !way ? BKSetPtr(s.u, attr, v, size) : s.t ? BKTrackSetPtr(s.t, attr, v) : BKUnitSetPtr(s.u, attr, v);
    };
    switch (o.kind) {
      case OP_ATTR: p.chk("attr", !pick(2) ? BKSetAttr(s.u, o.attr, o.v[0]) : s.t ? BKTrackSetAttr(s.t, o.attr, o.v[0]) : BKUnitSetAttr(s.u, o.attr, o.v[0])); return true;
      case OP_EFFECT: {
        // exactly as many values as are said to be there
        std::vector<BKInt> w(o.v.begin(), o.v.end());
        if (isSlide(o.attr) && c.flip()) w.resize(1);
        else if (w.size() == 3 && !w[2] && c.flip()) w.resize(2);
        int n = (int)w.size();
        bool zero = n < 3 || !w[2];
        if (n < 2 && !isSlide(o.attr)) zero = false;   // the functions without a size know of two
        if (!s.t) { p.chk("effect", ptr(o.attr, w.data(), w.size() * sizeof(BKInt))); return true; }
        bool old = isSlide(o.attr) || zero;   // the third value is only known to the functions with a size
        switch (pick(isSlide(o.attr) ? 5 : old ? 3 : 2)) {
          case 0: p.chk("effect", BKSetPtr(s.t, o.attr, w.data(), w.size() * sizeof(BKInt))); break;
          case 1: p.chk("effect", BKTrackSetEffect(s.t, o.attr, w.data(), (BKUInt)(w.size() * sizeof(BKInt)))); break;
          case 2: p.chk("effect", BKTrackSetPtr(s.t, o.attr, w.data())); break;
          case 3: p.chk("effect", BKSetAttr(s.t, o.attr, o.v[0])); break;
          default: p.chk("effect", BKTrackSetAttr(s.t, o.attr, o.v[0])); break;
        }
        return true;
      }
      case OP_ARP: {
        std::vector<BKInt> a; a.push_back((BKInt)o.v.size()); for (int x : o.v) a.push_back(x);
        if (o.v.empty() && c.flip()) { p.chk("arp", ptr(BK_ARPEGGIO, NULL, 0)); return true; }
        p.chk("arp", ptr(BK_ARPEGGIO, a.data(), a.size() * sizeof(BKInt))); return true;
      }
      case OP_INSTR: p.chk("instr", ptr(BK_INSTRUMENT, o.v[0] < 0 ? NULL : p.instr[o.v[0]], sizeof(void *))); return true;
      case OP_DATA: p.chk("data", ptr(o.attr, o.v[0] < 0 ? NULL : p.data[o.v[0]], sizeof(void *))); return true;
      case OP_RANGE: { BKInt v[2] = {o.v[0], o.v[1]}; p.chk("range", ptr(BK_SAMPLE_RANGE, v, sizeof v)); return true; }
      case OP_SUSTAIN: { BKInt v[2] = {o.v[0], o.v[1]}; p.chk("sustain", ptr(BK_SAMPLE_SUSTAIN_RANGE, v, sizeof v)); return true; }
      default: return false;
    }
  }
};
// a value read in the generic and in the other way
static void readOne(Case &c, Player &A, Player &B, Ways &w) {
  int n = (int)A.src.size(), total = n + (int)A.data.size() + 1;
  int i = (int)c.draw(total);
  BKEnum at = NAMES[c.draw(NN)];
  BKInt x = -77, y = -77; int r, q;
  const char *what;
  if (i < n) {
    Player::Src &s = B.src[i];
    what = s.t ? "track" : "unit";
    if (s.t && isEffect(at) && c.flip()) {
      // all values of an effect, into storage of exactly the size
      int k = (int)c.range(1, 5); std::vector<BKInt> u(k, -77), v(k, -77);
      int way = w.pick(3);
      if (way == 2) { k = isSlide(at) ? 1 : 2; u.assign(k, -77); v.assign(3, -77); }
      r = BKGetPtr(A.src[i].t, at, u.data(), k * sizeof(BKInt));
      q = way == 1 ? BKTrackGetEffect(s.t, at, v.data(), (BKUInt)(k * sizeof(BKInt))) : way == 2 ? BKTrackGetPtr(s.t, at, v.data()) : BKGetPtr(s.t, at, v.data(), k * sizeof(BKInt));
      CHECK(c, r == q && r == 0, "reading %s of track %d returned %d and %d", attrName(at), i, r, q);
      for (int j = 0; j < k; j++) {
        CHECK(c, u[j] == v[j], "value %d of %d of %s of track %d is %d and %d", j, k, attrName(at), i, u[j], v[j]);
        CHECK(c, j < 3 || v[j] == 0, "value %d of %s of track %d is %d", j, attrName(at), i, v[j]);
      }
      return;
    }
    if (c.chance(1, 3)) {
      // values behind pointers
      struct { void *p; BKInt v[BK_MAX_ARPEGGIO + 1]; } u, v; memset(&u, 0, sizeof u); memset(&v, 0, sizeof v);
      BKEnum pa = c.pick({(BKEnum)BK_ARPEGGIO, (BKEnum)BK_INSTRUMENT, (BKEnum)BK_SAMPLE, (BKEnum)BK_SAMPLE_RANGE, (BKEnum)BK_SAMPLE_SUSTAIN_RANGE, (BKEnum)BK_VOLUME, (BKEnum)BK_SAMPLE_CALLBACK, at});
      if (isEffect(pa)) return;
      bool isP = pa == BK_INSTRUMENT || pa == BK_SAMPLE || pa == BK_SAMPLE_CALLBACK;
      void *du = isP ? (void *)&u.p : (void *)u.v, *dv = isP ? (void *)&v.p : (void *)v.v;
      r = BKGetPtr(A.src[i].u, pa, du, sizeof u.v);
      q = !w.pick(2) ? BKGetPtr(s.u, pa, dv, sizeof v.v) : s.t ? BKTrackGetPtr(s.t, pa, dv) : BKUnitGetPtr(s.u, pa, dv);
      CHECK(c, r == q, "reading %s of %s %d returned %d and %d", attrName(pa), what, i, r, q);
      int iu = -1, iv = -1;
      if (pa == BK_INSTRUMENT || pa == BK_SAMPLE) {
        for (size_t k = 0; k < A.instr.size(); k++) { if (u.p == A.instr[k]) iu = (int)k; if (v.p == B.instr[k]) iv = (int)k; }
        for (size_t k = 0; k < A.data.size(); k++) { if (u.p == A.data[k]) iu = (int)k; if (v.p == B.data[k]) iv = (int)k; }
        CHECK(c, iu == iv && !u.p == !v.p, "%s of %s %d is number %d and %d", attrName(pa), what, i, iu, iv);
      } else if (!isP) for (int k = 0; k <= BK_MAX_ARPEGGIO; k++) CHECK(c, u.v[k] == v.v[k], "value %d of %s of %s %d is %d and %d", k, attrName(pa), what, i, u.v[k], v.v[k]);
      return;
    }
    r = BKGetAttr(A.src[i].u, at, &x);
    q = !w.pick(2) ? BKGetAttr(s.u, at, &y) : s.t ? BKTrackGetAttr(s.t, at, &y) : BKUnitGetAttr(s.u, at, &y);
  } else if (i < total - 1) {
    what = "data"; i -= n;
    r = BKGetAttr(A.data[i], at, &x);
    q = w.pick(2) ? BKDataGetAttr(B.data[i], at, &y) : BKGetAttr(B.data[i], at, &y);
  } else {
    what = "context"; i = 0;
    if (c.flip()) {
      BKEnum pa = c.pick({(BKEnum)BK_TIME, (BKEnum)BK_CLOCK_PERIOD, (BKEnum)BK_PULSE_KERNEL, at});
      int64_t u = -77, v = -77;
      r = BKGetPtr(A.ctx, pa, &u, sizeof u); q = w.pick(2) ? BKContextGetPtr(B.ctx, pa, &v) : BKGetPtr(B.ctx, pa, &v, sizeof v);
      CHECK(c, r == q && u == v, "%s of the context is %lld (%d) and %lld (%d)", attrName(pa), (long long)u, r, (long long)v, q);
      return;
    }
    r = BKGetAttr(A.ctx, at, &x); q = w.pick(2) ? BKContextGetAttr(B.ctx, at, &y) : BKGetAttr(B.ctx, at, &y);
  }
  CHECK(c, r == q && x == y, "%s of %s %d is %d (%d) and %d (%d)", attrName(at), what, i, x, r, y, q);
  if (at == 0 || at == BK_TRIANGLE_IGNORES_VOLUME + 1 || at == BK_EFFECT_VIBRATO + 1 || at == (7 << 12)) CHECK(c, r == BK_INVALID_ATTRIBUTE, "reading attribute %#x of %s %d returned %d", at, what, i, r);
}
// only the second one: attributes which do not exist, or not for this object, are refused and nothing happens
static void refuse(Case &c, Player &B, Ways &w) {
  int n = (int)B.src.size(), total = n + (int)B.data.size() + 1;
  int i = (int)c.draw(total), v = (int)c.edgy(-100000, 100000, {0, 1, -1, 2});
  BKEnum at = c.pick({(BKEnum)0, (BKEnum)(BK_TRIANGLE_IGNORES_VOLUME + 1), (BKEnum)(7 << 12), (BKEnum)BK_NUM_FRAMES, (BKEnum)BK_TIME, (BKEnum)BK_NUM_CHANNELS, (BKEnum)BK_NUM_PHASES, (BKEnum)(BK_DATA_ATTR_TYPE + 9), (BKEnum)BK_EVENT_CLOCK, (BKEnum)(BK_EFFECT_VIBRATO + 1)});
  BKInt store[20]; for (auto &k : store) k = v;
  int way = w.pick(4), r;
  if (i < n) {
    Player::Src &s = B.src[i];
    if (s.t && c.chance(1, 4)) r = BKTrackSetEffect(s.t, at, store, sizeof store);
    else r = way == 0 ? BKSetAttr(s.u, at, v) : way == 1 ? BKSetPtr(s.u, at, store, sizeof store) : way == 2 ? (s.t ? BKTrackSetAttr(s.t, at, v) : BKUnitSetAttr(s.u, at, v)) : s.t ? BKTrackSetPtr(s.t, at, store) : BKUnitSetPtr(s.u, at, store);
  } else if (i < total - 1) r = way == 0 ? BKSetAttr(B.data[i - n], at, v) : way == 1 ? BKSetPtr(B.data[i - n], at, store, sizeof store) : BKDataSetAttr(B.data[i - n], at, v);
  else r = way == 0 ? BKSetAttr(B.ctx, at, v) : way == 1 ? BKSetPtr(B.ctx, at, store, sizeof store) : way == 2 ? BKContextSetAttr(B.ctx, at, v) : BKContextSetPtr(B.ctx, at, store);
  c.note("set attribute %#x of %s to %d", at, i < n ? "a source" : i < total - 1 ? "data" : "the context", v);
  CHECK(c, r == BK_INVALID_ATTRIBUTE, "setting attribute %#x of object %d returned %d", at, i, r);
  w.refused++;
}
static void test(Case &c) {
  SceneOpts o; o.maxLen = c.thorough ? 6000 : 3000; o.maxOps = 24;
  Scene s = genScene(c, o);
  // more of the operations on tracks, and ones with short values
  describe(c, s);
  Player A(s), B(s);
  Ways w{c, B};
  B.via = [&](const Op &op) { return w(op); };
  A.setup(); B.setup();
  auto step = [&](int64_t n) { return n; };
  Frames fa, fb; long reads = 0;
  int64_t pos = 0;
  while (pos < s.length) {
    while (A.nextOp < s.ops.size() && s.ops[A.nextOp].at <= pos) { A.apply(s.ops[A.nextOp++]); B.apply(s.ops[B.nextOp++]); }
    if (c.chance(1, 2)) { readOne(c, A, B, w); reads++; }
    if (c.chance(1, 4)) refuse(c, B, w);
    if (!A.data.empty() && c.chance(1, 10)) {
      int i = (int)c.draw((uint32_t)A.data.size()), v = (int)c.edgy(-60 * FU, 60 * FU, {0, FU, -FU});
      c.note("pitch of data %d: %d", i, v);
      int r = BKSetAttr(A.data[i], BK_SAMPLE_PITCH, v), q = w.pick(2) ? BKDataSetAttr(B.data[i], BK_SAMPLE_PITCH, v) : BKSetAttr(B.data[i], BK_SAMPLE_PITCH, v);
      CHECK(c, r == q && r == 0, "setting the pitch of data returned %d and %d", r, q);
    }
    int64_t until = s.length;
    if (A.nextOp < s.ops.size()) until = std::min(until, s.ops[A.nextOp].at);
    if (until - pos > 300 && c.flip()) until = pos + c.range(1, until - pos);
    int64_t a = A.produce(fa, until - pos, step), b = B.produce(fb, until - pos, step);
    pos = until;
    CHECK(c, a == b && A.err == B.err, "delivered %lld (%s) and %lld (%s) frames", (long long)a, A.err.c_str(), (long long)b, B.err.c_str());
    size_t d = firstDiff(fa, fb);
    CHECK(c, d == fa.size() && fa.size() == fb.size(), "sample %zu is %d and %d", d, fa[d], fb[d]);
    if (!A.err.empty()) break;
  }
  CHECK(c, A.status == B.status, "the calls returned different status codes");
  c.label(w.refused ? "with refused attributes" : "without refused attributes");
  if (w.other >= 5 && reads >= 2 && energy(fa) * 4 > fa.size()) c.nontrivial();
}
// the notes and effects given by the functions without size take effect
static void fixed1(Case &c) {
  BKTrack t; CHECK(c, BKTrackInit(&t, BK_SQUARE) == 0, "init");
  BKInt arp[4] = {3, 0, 4 * FU, 7 * FU}, got[BK_MAX_ARPEGGIO + 1] = {0};
  CHECK(c, BKTrackSetPtr(&t, BK_ARPEGGIO, arp) == 0 && BKTrackGetPtr(&t, BK_ARPEGGIO, got) == 0 && !memcmp(arp, got, sizeof arp), "arpeggio of %d notes was set, %d are there", arp[0], got[0]);
  for (BKEnum e = BK_EFFECT_VOLUME_SLIDE; e <= (BKEnum)BK_EFFECT_VIBRATO; e++) {
    BKInt v[3] = {12, 20000, 0}, r[3] = {-1, -1, -1}, q[3] = {-1, -1, -1};
    CHECK(c, BKTrackSetPtr(&t, e, v) == 0, "set"); CHECK(c, BKTrackGetPtr(&t, e, r) == 0, "get"); CHECK(c, BKGetPtr(&t, e, q, sizeof q) == 0, "get");
    CHECK(c, r[0] == 12 && q[0] == 12 && (isSlide(e) || (r[1] == 20000 && q[1] == 20000)), "%s was set to 12, 20000 and is %d, %d", attrName(e), r[0], r[1]);
    CHECK(c, BKTrackSetPtr(&t, e, NULL) == 0 && BKTrackGetPtr(&t, e, r) == 0 && r[0] == 0, "%s is not disabled", attrName(e));
  }
  CHECK(c, BKSetAttr(NULL, BK_VOLUME, 1) == BK_INVALID_STATE, "an attribute of no object was set");
  BKDispose(&t);
}
std::vector<vp::Property> vp_properties() {
  vp::Property p;
  p.id = "C35"; p.rule = "at least five accesses took another way, two values were read, and a quarter of the samples is not silent";
  p.quickCases = 60000; p.thoroughCases = 600000; p.test = test;
  p.fixed.push_back(fixed1);
  return {p};
}
VP_MAIN
