#include "track.h"
// C13: tremolo and vibrato.
// (a) enabled from rest: every tick against the reference swing
static void testFresh(Case &c) {
  int ch = (int)c.pick({2, 1}), wave = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
  TrackRig r(c, ch, (int)c.pick({44100, 48000, 16000, 96000}), wave, (int)c.range(4, 20), CMP_MUTE | CMP_PERIOD | CMP_VOLUME | CMP_NOTE);
  r.master((int)c.range(1, BK_MAX_VOLUME));
  int rounds = 3 + c.draw(c.thorough ? 40 : 16), swung = 0;
  for (int i = 0; i < rounds; i++) {
    int k = 1 + c.draw(3);
    while (k--) switch (i == 0 && !k ? 0 : c.weighted({4, 6, 6, 2, 2, 2, 1, 1})) {
      case 0: r.note((int)c.range(BK_C_0, BK_C_8) * FU); break;
      case 1: if (r.m.vib.n) r.swing(BK_EFFECT_VIBRATO, 0, (int)c.draw(2) * 1000); else r.swing(BK_EFFECT_VIBRATO, c.chance(1, 15) ? (int)c.logRange(50, 70000) : (int)c.edgy(1, 50, {1, 2, 3}), (int)(c.chance(1, 10) ? c.range(-100LL * FU, 100LL * FU) : c.edgy(-6 * FU, 6 * FU, {0, FU, -FU}))); break;
      case 2: if (r.m.trem.n) r.swing(BK_EFFECT_TREMOLO, 0, (int)c.draw(2) * 1000); else r.swing(BK_EFFECT_TREMOLO, c.chance(1, 15) ? (int)c.logRange(50, 70000) : (int)c.edgy(1, 50, {1, 2, 3}), (int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME})); break;
      case 3: r.divider(BK_EFFECT_DIVIDER, c.chance(1, 10) ? (int)c.logRange(1, 400) : (int)c.range(1, 5)); break;
      case 4: r.volume((int)c.range(0, BK_MAX_VOLUME)); break;
      case 5: if (wave == BK_TRIANGLE) r.tri((int)c.draw(2)); else r.pitch((int)c.range(-12 * FU, 12 * FU)); break;
      case 6: r.note(c.flip() ? BK_NOTE_RELEASE : BK_NOTE_MUTE); break;
      default: r.effect(c.flip() ? BK_EFFECT_PORTAMENTO : BK_EFFECT_VOLUME_SLIDE, (int)c.range(0, 20)); break;
    }
    int nt = (int)c.logRange(1, 150);
    c.note("%d ticks", nt);
    while (nt--) { r.tick(); if (!r.m.mute && (r.m.vib.n || r.m.trem.n)) swung++; }
  }
  if (swung > 5) c.nontrivial();
  c.label("from rest");
  r.dispose();
}
// deviation in note units of a period read back
static int64_t noteOf(int period, int rate, int count) {
  int64_t lo = -64ll * FU, hi = 160ll * FU;   // periods fall with the note
  while (lo < hi) { int64_t m = (lo + hi) / 2 - ((lo + hi) < 0 && (lo + hi) % 2 ? 1 : 0); if ((int64_t)(BKTonePeriodLookup((BKInt)m, rate) / count) <= period) hi = m; else lo = m + 1; }
  return lo;
}
// (b) depth, length and slide time changed on the way: bounded always, periodic once steady
static void testChanges(Case &c) {
  bool vib = c.flip(); BKEnum fx = vib ? BK_EFFECT_VIBRATO : BK_EFFECT_TREMOLO;
  int rate = 44100, P = (int)c.range(4, 12), note = (int)c.range(BK_C_3, BK_C_5) * FU;
  TrackRig r(c, 1, rate, BK_SQUARE, P, 0);
  r.master(BK_MAX_VOLUME); r.note(note);
  int div = (int)c.pick({1, 1, 2, 3}); r.divider(BK_EFFECT_DIVIDER, div);
  // reference of the bounds
  RefSlide depth, len; bool on = false; int lag = 0 /* steps taken on interrupted slides: one unit of truncation each */, ivDelta = 0, ivSteps = 0; RefDiv ed; ed.d = div;
  bool other = false;            // effects which the judged value does not depend on
  bool others[3] = {};
  const int rest = RefTrack::mul(RefTrack::mul(BK_MAX_VOLUME, BK_MAX_VOLUME), BK_MAX_VOLUME);
  std::vector<int64_t> seq;      // deviations at effect ticks since steady
  auto tick = [&]() {
    CHECK(c, BKContextGenerate(&r.ctx, r.buf.data(), P) == P, "generate");
    int64_t d;
    if (vib) d = noteOf(r.get(BK_PERIOD), rate, 16) - note; else d = rest - r.get(BK_VOLUME_0);
    int64_t tol = vib ? 17 + lag : 3;
    if (!on) CHECK(c, vib ? r.get(BK_PERIOD) == (int)(BKTonePeriodLookup(note, rate) / 16) : d >= -1 && d <= 1, "tick %ld: %s is off but the deviation is %lld", r.ticks, attrName(fx), (long long)d);
    else CHECK(c, d <= llabs(ivDelta) + tol && d >= (vib ? -llabs(ivDelta) - tol : -1), "tick %ld: %s of depth %d: deviation %lld", r.ticks, attrName(fx), ivDelta, (long long)d);
    r.ticks++;
    bool et = (on || other) && ed.tick();   // the divider counts while any effect is on
    et = et && on;
    if (et && depth.n) { depth.step(); len.step(); lag = depth.left ? lag + 1 : 0; ivDelta = (int)floor(depth.v + 0.5); ivSteps = (int)floor(len.v + 0.5); if (!ivSteps) ivDelta = 0; }
    return std::make_pair(d, et);
  };
  int rounds = 2 + c.draw(c.thorough ? 20 : 8), steadies = 0;
  for (int i = 0; i < rounds; i++) {
    int n = c.chance(1, 5) ? 0 : (int)c.edgy(1, 14, {1, 2, 3}), dl = vib ? (int)c.edgy(-4 * FU, 4 * FU, {0, FU, -FU}) : (int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME, 40000, -3});
    int s = c.flip() ? 0 : (int)c.edgy(1, 40, {1, 2});
    int size = (int)c.pick({12, 12, 12, 8, 4}); bool null = c.chance(1, 10);
    BKInt v[3] = {n, dl, s};
    c.note("tick %ld: %s %d ticks depth %d slide %d size %d%s", r.ticks, attrName(fx), n, dl, s, size, null ? " NULL" : "");
    CHECK(c, BKSetPtr(r.t, fx, null ? NULL : v, null ? 0 : size) == 0, "effect");
    if (null) n = dl = s = 0;
    if (size < 12) s = 0;
    if (size < 8) dl = 0;
    if (!vib) dl = std::min(std::max(dl, 0), (int)BK_MAX_VOLUME);
    depth.n = s; depth.set(dl); if (!s) lag = 0; len.n = s; len.set(n);
    if (!s) { ivDelta = n ? dl : 0; ivSteps = n; }
    on = n != 0;
    BKInt got[3] = {-1, -1, -1};
    CHECK(c, BKGetPtr(r.t, fx, got, 12) == 0 && got[0] == n && got[1] == dl && got[2] == s, "the effect reads back %d %d %d", got[0], got[1], got[2]);
    if (c.chance(1, 3)) {
      // what else goes on on the track makes no difference
      int k = (int)c.draw(7);
      BKInt w[3] = {(BKInt)c.range(0, 12), (BKInt)c.edgy(-2 * FU, 2 * FU, {0}), (BKInt)c.range(0, 20)};
      auto eff = [&](int i, BKEnum e) { c.note("tick %ld: also %s %d %d %d", r.ticks, attrName(e), w[0], w[1], w[2]); CHECK(c, BKSetPtr(r.t, e, w, 12) == 0, "effect"); others[i] = w[0] != 0; };
      auto attr = [&](BKEnum a, int v) { c.note("tick %ld: also %s %d", r.ticks, attrName(a), v); CHECK(c, BKSetAttr(r.t, a, v) == 0, "attribute"); };
      switch (k) {
        case 0: eff(0, vib ? BK_EFFECT_TREMOLO : BK_EFFECT_VIBRATO); break;
        case 1: eff(1, vib ? BK_EFFECT_VOLUME_SLIDE : BK_EFFECT_PORTAMENTO); break;
        case 2: if (vib) eff(2, BK_EFFECT_PANNING_SLIDE); else attr(BK_PITCH, (int)c.range(-5 * FU, 5 * FU)); break;
        case 3: if (vib) attr(BK_VOLUME, (int)c.range(0, BK_MAX_VOLUME)); else attr(BK_NOTE, (int)c.range(BK_C_2, BK_C_6) * FU); break;
        case 4: if (vib) attr(BK_MASTER_VOLUME, (int)c.range(0, BK_MAX_VOLUME)); else { BKInt a[1 + BK_MAX_ARPEGGIO]; a[0] = (BKInt)c.range(0, BK_MAX_ARPEGGIO); for (int q = 1; q <= a[0]; q++) a[q] = (BKInt)c.range(-12, 12) * FU; c.note("tick %ld: also an arpeggio of %d", r.ticks, a[0]); CHECK(c, BKSetPtr(r.t, BK_ARPEGGIO, a, (1 + a[0]) * sizeof(BKInt)) == 0, "arpeggio"); } break;
        case 5: attr(BK_DUTY_CYCLE, (int)c.range(1, 15)); break;
        default: attr(BK_ARPEGGIO_DIVIDER, (int)c.range(1, 6)); break;
      }
      other = others[0] || others[1] || others[2];
    }
    int nt = (int)c.logRange(1, 60);
    c.note("%d ticks", nt);
    while (nt--) tick();
    if (on && c.flip()) {
      // let it settle: the slide ends after its number of effect ticks
      while (depth.left) tick();
      int w = 3 * div + 3; while (w--) tick();
      int cyc = vib ? 4 * n : 2 * n;
      std::vector<int64_t> q;
      while ((int)q.size() < 2 * cyc + 1) { auto p = tick(); if (p.second) q.push_back(p.first); }
      int64_t tol = vib ? 16 : 3, hi = q[0], lo = q[0];
      // the swing is made of equal steps, truncated: one unit per step at most
      int64_t st = vib ? n : 0;
      for (int k = 0; k < cyc; k++) {
        CHECK(c, llabs(q[k] - q[k + cyc]) <= tol, "tick %ld: %s of %d ticks is not periodic: deviation %lld, %lld one cycle later", r.ticks, attrName(fx), n, (long long)q[k], (long long)q[k + cyc]);
        hi = std::max(hi, q[k]); lo = std::min(lo, q[k]);
        int64_t dd = llabs(q[k + 1] - q[k]);
        CHECK(c, dd <= llabs((int64_t)dl) / n + tol + st + 1, "tick %ld: %s of depth %d in %d ticks jumps by %lld", r.ticks, attrName(fx), dl, n, (long long)dd);
      }
      CHECK(c, llabs(hi - llabs((int64_t)dl)) <= tol, "tick %ld: %s of depth %d reaches %lld", r.ticks, attrName(fx), dl, (long long)hi);
      CHECK(c, vib ? llabs(lo + llabs((int64_t)dl)) <= tol : llabs(lo) <= tol, "tick %ld: %s of depth %d comes down to %lld", r.ticks, attrName(fx), dl, (long long)lo);
      if (vib) { int z = 0; for (int k = 0; k < cyc; k++) z += llabs(q[k]) <= tol; CHECK(c, z >= 2, "tick %ld: the vibrato never returns to the note", r.ticks); }
      if (llabs((int64_t)dl) > 100) steadies++;
      c.note("steady, %d ticks in all", (int)r.ticks);
    }
  }
  if (steadies) c.nontrivial();
  c.label(vib ? "vibrato changed" : "tremolo changed");
  r.dispose();
}
static void test(Case &c) { if (c.chance(2, 5)) testFresh(c); else testChanges(c); }
std::vector<vp::Property> vp_properties() {
  return {{"C13", "(a) tremolo and vibrato enabled and disabled at random, volume and period after every tick compared with a triangular swing; (b) depth, length and slide time changed at any time: the deviation stays within the present depth, and once steady it is periodic, evenly stepped, reaches the depth and returns to the undisturbed value; non-trivial: more than 5 ticks with an effect (a) or a steady state of some depth examined (b)", 120000, 1200000, test, {}}};
}
VP_MAIN
