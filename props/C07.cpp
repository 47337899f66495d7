#include "common.h"
#include "model.h"
// C07: kernels are normalised; a step settles exactly wherever it falls.
static void tables(Case &c) {
  for (int k = 0; k < 2; k++) {
    const BKBufferPulse *p = BKBufferPulseKernels[k];
    double c0 = 0;
    for (int ph = 0; ph < BK_STEP_UNIT; ph++) {
      long sum = 0, cum = 0; double cen = 0;
      for (int i = 0; i < BK_STEP_WIDTH; i++) {
        long v = p->frames[ph][i];
        sum += v; cum += v; cen += (double)v * i;
        CHECK(c, cum > -0.2 * 32767 && cum < 1.2 * 32767, "kernel %d phase %d: the step overshoots to %ld of 32767 after %d frames", k, ph, cum, i);
      }
      CHECK(c, sum == BK_FRAME_MAX, "kernel %d phase %d: total %ld", k, ph, sum);
      cen = cen / sum - ph / 32.0;
      if (!ph) c0 = cen;
      // the step must be delayed by its position inside the frame
      CHECK(c, std::fabs(cen - c0) < 0.03, "kernel %d phase %d: the step lies %.4f frames off its position", k, ph, cen - c0);
    }
  }
  c.nontrivial();
}
// floor of the settled level and its bounds after n frames of decay
static void settled(Case &c, int64_t got, int64_t height, int64_t frame, int64_t at, const char *what) {
  double full = 32767.0 * height / 16384;
  double lo = full * std::pow(1 - 1.0 / 512, (double)(frame - at + 1)), hi = full;
  if (frame - at >= 32) hi = full * std::pow(1 - 1.0 / 512, (double)(frame - at - 31));
  if (lo > hi) std::swap(lo, hi);
  lo -= 2; hi += 2;
  if (full > 0) hi += 1; else lo -= 1;
  double l = std::max(-32768.0, std::min(32767.0, lo)), h = std::max(-32768.0, std::min(32767.0, hi));
  CHECK(c, got >= l && got <= h, "%s: level %lld at frame %lld after a step of %lld at frame %lld, expected between %.1f and %.1f", what, (long long)got, (long long)frame, (long long)height, (long long)at, l, h);
}
static void bufferCase(Case &c) {
  Raw<BKBuffer> b;
  memset(b.p, c.flip() ? 0 : 0xa5, sizeof(BKBuffer));
  BKBufferInit(b.p);
  int kernel = (int)c.draw(3) - 1;
  if (kernel >= 0) b->pulse = BKBufferPulseKernels[kernel];
  const BKBufferPulse *kp = kernel >= 0 ? BKBufferPulseKernels[kernel] : BKBufferPulseKernels[BK_PULSE_KERNEL_HARM];
  int64_t len = c.logRange(80, c.thorough ? 6000 : 2500);
  struct St { int64_t t; int s; bool frame; };
  std::vector<St> st; bool frames = false;
  int n = (int)c.range(1, 6);
  for (int i = 0; i < n; i++) { St x; x.t = c.range(0, len * FU - 1); if (c.chance(1, 3)) x.t &= ~(int64_t)0x7fff; x.s = (int)c.edgy(-65534, 65534, {1, -1, 32767, -32768, 16383}); x.frame = c.chance(1, 8); if (x.frame) { x.s = (int)clampi(x.s, -32768, 32767); frames = true; } st.push_back(x); }
  std::stable_sort(st.begin(), st.end(), [](const St &a, const St &b) { return a.t < b.t; });
  c.note("buffer, kernel %d, %lld frames", kernel, (long long)len);
  for (auto &x : st) c.note("%s %d at %.6f", x.frame ? "frame" : "step", x.s, x.t / (double)FU);
  RefChannel ref(len, kp);
  Frames out, first;
  int channels = (int)c.pick({1, 2, 3});
  int rounds = c.chance(1, 6) ? 2 : 1;
  for (int round = 0; round < rounds; round++) {
  int64_t pos = 0; size_t k = 0;
  if (round) {
    // cleared with steps under way: starts over, with the same kernel
    int64_t t = c.range(0, 900 * FU); BKBufferAddPulse(b.p, (BKFUInt20)t, 30000); BKBufferEnd(b.p, (BKFUInt20)t); BKBufferShift(b.p, (BKFUInt20)t);
    c.note("cleared with %d frames left", BKBufferSize(b.p));
    BKBufferClear(b.p);
    CHECK(c, BKBufferSize(b.p) == 0, "%d frames after clearing", BKBufferSize(b.p));
    first = out; out.clear();
  }
  int64_t now = 0;                                                     // pos: frames read; now: time in the buffer
  while (pos < len) {
    int64_t to = std::min(len * FU, now + (c.chance(1, 3) ? c.range(1, 2000) : (int64_t)1024) * FU);
    if (to < len * FU && c.chance(1, 3)) to += c.range(-(FU - 1), FU - 1);
    if (to > len * FU) to = len * FU;
    for (; k < st.size() && st[k].t < to; k++) {
      BKFUInt20 at = (BKFUInt20)(st[k].t - now);
      if (st[k].frame) { BKBufferAddFrame(b.p, at, (BKFrame)st[k].s); if (!round) ref.in[(size_t)(st[k].t / FU)] += (int64_t)32767 * st[k].s; }
      else { BKBufferAddPulse(b.p, at, st[k].s); if (!round) ref.step(st[k].t, st[k].s); }
    }
    BKBufferEnd(b.p, (BKFUInt20)(to - now));
    int64_t m = to / FU - pos;
    if (c.chance(1, 5) && to > now) {                                  // in parts, the last one too far
      int64_t part = c.range(0, to - now), far = to % FU == 0 && c.chance(1, 2) ? c.range(FU, 400 * FU) : 0;
      BKBufferShift(b.p, (BKFUInt20)part); BKBufferShift(b.p, (BKFUInt20)(to - now - part + far));
      if (far) c.label("shifted too far");
    } else BKBufferShift(b.p, (BKFUInt20)(to - now));
    now = to;
    CHECK(c, BKBufferSize(b.p) == m, "buffer holds %d of %lld frames", BKBufferSize(b.p), (long long)m);
    int64_t left = m;
    while (left > 0) {
      int64_t q = c.chance(1, 4) ? c.range(1, left) : left;
      BKFrame *f = (BKFrame *)::malloc((q - 1) * channels * 2 + 2);
      int r = BKBufferRead(b.p, f, (BKUInt)q, (BKUInt)channels);
      CHECK(c, r == q, "read %d of %lld", r, (long long)q);
      for (int64_t i = 0; i < q; i++) out.push_back(f[i * channels]);
      ::free(f);
      left -= q;
    }
    pos += m;
  }
  }
  if (rounds > 1) { c.label("cleared"); CHECK(c, firstDiff(first, out) == out.size(), "after clearing, frame %zu differs from the first time", firstDiff(first, out)); }
  BKBufferDispose(b.p);
  auto want = ref.render(len);
  for (int64_t i = 0; i < len; i++) CHECK(c, out[i] == want[i], "frame %lld: %d, expected %d", (long long)i, out[i], want[i]);
  for (int64_t i = 0; i < st[0].t / FU && i < len; i++) CHECK(c, out[i] == 0, "frame %lld: %d before the first step", (long long)i, out[i]);
  if (frames) c.label("single frames");
  if (st.size() == 1 && len > st[0].t / FU + 40) {
    for (int64_t i = st[0].t / FU + 31; i < len; i++) settled(c, out[i], st[0].s, i, st[0].t / FU, "single step");
  }
  if (len > st[0].t / FU + 40) c.nontrivial();
  c.label("buffer");
}
// the same through a unit: a custom waveform whose only step lies at one period
static void unitCase(Case &c) {
  int kernel = (int)c.draw(2);
  int64_t period = c.range(2, 60) * FU + (c.chance(1, 4) ? 0 : c.range(0, FU - 1));
  int height = (int)c.edgy(-32768, 32767, {1, -1, 16384}), vol = (int)c.edgy(1, 16384, {16384, 1});
  int nfr = (int)c.range(3, 64);
  int64_t len = std::min<int64_t>(c.range(period / FU + 40, 2500), (period / FU) * nfr);
  int other = (int)c.range(0, FU - 1);
  c.note("unit, kernel %d, step of %d * %d/32768 at %.6f and at fraction %.6f, %lld frames", kernel, height, vol, period / (double)FU, other / (double)FU, (long long)len);
  std::vector<Frames> res;
  int64_t eff = ((int64_t)height * vol) >> 15;
  for (int v = 0; v < 2; v++) {
    int64_t P = v ? (period / FU) * FU + other : period;
    BKContext ctx; BKUnit u; BKData d;
    BKContextInit(&ctx, 1, 44100); BKUnitInit(&u, BK_SQUARE); BKDataInit(&d);
    BKSetPtr(&ctx, BK_PULSE_KERNEL, (void *)BKBufferPulseKernels[kernel], sizeof(void *));
    Frames f(nfr, (BKFrame)height); f[0] = 0;
    BKDataSetFrames(&d, f.data(), nfr, 1, 1);
    CHECK(c, BKUnitAttach(&u, &ctx) == 0 && BKSetPtr(&u, BK_WAVEFORM, &d, sizeof(void *)) == 0, "custom waveform refused");
    BKSetAttr(&u, BK_PERIOD, (BKInt)P); BKSetAttr(&u, BK_VOLUME, vol); BKSetAttr(&u, BK_MUTE, 0);
    Frames out(len); int64_t pos = 0;
    while (pos < len) { int64_t m = c.chance(1, 3) ? c.range(1, len - pos) : len - pos; CHECK(c, BKContextGenerate(&ctx, out.data() + pos, (BKUInt)m) == m, "generate"); pos += m; }
    BKDispose(&u); BKDispose(&d); BKDispose(&ctx);
    int64_t at = P / FU;
    for (int64_t i = 0; i < len; i++) {
      if (i < at) CHECK(c, out[i] == 0, "frame %lld: %d before the step at %lld", (long long)i, out[i], (long long)at);
      else if (i >= at + 31) settled(c, out[i], eff, i, at, "unit step");
    }
    res.push_back(out);
  }
  // both positions lie in the same frame: the settled levels differ by no more than the decay of one frame
  for (int64_t i = period / FU + 32; i < len; i++) {
    double tol = std::abs((double)eff) * 2 / 512 + 2;
    CHECK(c, std::abs(res[0][i] - res[1][i]) <= tol, "frame %lld: the level depends on the position inside the frame: %d and %d", (long long)i, res[0][i], res[1][i]);
  }
  if (eff > 2 || eff < -2) c.nontrivial();
  c.label("unit");
}
static void test(Case &c) { if (c.flip()) bufferCase(c); else unitCase(c); }
std::vector<vp::Property> vp_properties() {
  vp::Property p{"C07", "all kernel tables completely; up to 6 steps at random sub-frame positions through a buffer read in random pieces, single steps through a unit; exact reference and analytic level bounds; non-trivial: a step above rounding with the settled level inside the rendering", 300000, 3000000, test, {}};
  p.fixed.push_back(tables);
  return {p};
}
VP_MAIN
