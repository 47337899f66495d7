#include "common.h"
// C09: equal-tempered pitch of notes and samples.
static double toneFrames(int64_t tone, double rate) { return rate / (440.0 * pow(2.0, (tone / (double)FU - BK_A_3) / 12.0)); }
// table entries are periods in 2^-20 s, truncated; between semitones the period is interpolated linearly
static void checkTone(Case &c, int64_t tone, int rate, int64_t p) {
  int64_t t = std::min<int64_t>(std::max<int64_t>(tone, 0), (int64_t)BK_C_8 * FU);
  double r = std::min(96000, std::max(16000, rate));
  double exact = toneFrames(t, r) * FU;
  double trunc = r;                       // one unit of the table
  CHECK(c, p <= exact * 1.0006 + 2 && p >= exact - trunc * 1.01 - 2, "note %.5f at %d Hz: period %.5f frames, expected %.5f", tone / (double)FU, rate, p / (double)FU, exact / FU);
}
static void checkLog2(Case &c, int64_t tone, int64_t p) {
  int64_t t = std::min<int64_t>(std::max<int64_t>(tone, 0), (int64_t)BK_C_8 * FU);
  double exact = pow(2.0, (t / (double)FU - BK_C_4) / 12.0) * FU;
  CHECK(c, p <= exact * 1.0006 + 1 && p >= exact * 0.9997 - 4.5, "sample pitch %.5f: step %lld, expected %.2f", tone / (double)FU, (long long)p, exact);
}
static const int RATES[] = {16000, 22050, 32000, 44100, 48000, 88200, 96000};
static void semitones(Case &c) {
  for (int rate : RATES) {
    int64_t prev = INT64_MAX;
    for (int n = BK_C_0; n <= BK_C_8; n++) {
      int64_t p = BKTonePeriodLookup(n * FU, rate);
      checkTone(c, (int64_t)n * FU, rate, p);
      CHECK(c, p < prev, "note %d at %d Hz: the period does not fall", n, rate);
      prev = p;
      if (n >= 12) { double q = BKTonePeriodLookup((n - 12) * FU, rate) / (double)p; CHECK(c, std::fabs(q - 2) < 0.02, "octave below note %d: ratio %.4f", n, q); }
    }
  }
  int64_t prev = 0;
  for (int n = BK_C_0; n <= BK_C_8; n++) {
    int64_t p = BKLog2PeriodLookup(n * FU);
    checkLog2(c, (int64_t)n * FU, p);
    CHECK(c, p > prev, "sample pitch %d: the step does not grow", n);
    prev = p;
  }
  c.nontrivial();
}
static void lookup(Case &c) {
  for (int i = 0; i < 40; i++) {
    int rate = c.chance(1, 2) ? c.pick({16000, 22050, 44100, 48000, 96000}) : (int)c.range(1, 200000);
    int64_t a = c.edgy(INT32_MIN, INT32_MAX, {0, -1, (int64_t)BK_C_8 * FU, (int64_t)BK_C_8 * FU + 1, (int64_t)BK_C_8 * FU - 1, INT32_MIN, INT32_MAX});
    if (c.chance(4, 5)) a = c.range(0, (int64_t)BK_C_8 * FU);
    if (c.chance(1, 4)) a &= ~(int64_t)(FU - 1);
    int64_t b = c.chance(1, 2) ? a + c.logRange(16, 2 * FU) : c.range(0, (int64_t)BK_C_8 * FU);
    b = std::min<int64_t>(b, INT32_MAX);
    int64_t pa = BKTonePeriodLookup((BKFInt20)a, rate), pb = BKTonePeriodLookup((BKFInt20)b, rate);
    c.note("notes %lld %lld rate %d", (long long)a, (long long)b, rate);
    checkTone(c, a, rate, pa); checkTone(c, b, rate, pb);
    int64_t la = BKLog2PeriodLookup((BKFInt20)a), lb = BKLog2PeriodLookup((BKFInt20)b);
    checkLog2(c, a, la); checkLog2(c, b, lb);
    int64_t ca = std::min<int64_t>(std::max<int64_t>(a, 0), (int64_t)BK_C_8 * FU), cb = std::min<int64_t>(std::max<int64_t>(b, 0), (int64_t)BK_C_8 * FU);
    if (ca >= cb + 16) { std::swap(ca, cb); std::swap(pa, pb); std::swap(la, lb); }
    if (cb >= ca + 16) CHECK(c, pb < pa, "rate %d: note %.6f has period %lld, higher note %.6f has %lld", rate, ca / (double)FU, (long long)pa, cb / (double)FU, (long long)pb);
    if (cb >= ca) CHECK(c, lb >= la, "sample pitch %.6f steps %lld, higher pitch %.6f steps %lld", ca / (double)FU, (long long)la, cb / (double)FU, (long long)lb);
    if (ca == cb) CHECK(c, pa == pb && la == lb, "equal notes have different periods");
  }
  c.nontrivial();
  c.label("lookup");
}
// the pitch a track really sounds
static void track(Case &c) {
  int rate = c.pick({44100, 48000, 16000, 22050, 96000, 44100});
  BKEnum w = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_CUSTOM, (BKEnum)BK_SAMPLE});
  int64_t note = c.range(0, (int64_t)BK_C_8 * FU);
  if (c.flip()) note &= ~(int64_t)(FU - 1);
  if (c.chance(1, 10)) note = c.range((int64_t)BK_C_8 * FU, INT32_MAX);
  int64_t pitch = c.chance(1, 3) ? c.range(-24LL * FU, 24LL * FU) : 0, spitch = w == BK_SAMPLE && c.flip() ? c.range(-12LL * FU, 12LL * FU) : 0;
  BKContext ctx; BKTrack t; BKData d;
  CHECK(c, BKContextInit(&ctx, 1, rate) == 0 && BKTrackInit(&t, w == BK_CUSTOM || w == BK_SAMPLE ? BK_SQUARE : w) == 0 && BKDataInit(&d) == 0, "init");
  int nf = (int)c.pick({2, 16, 63, 64, 100});
  Frames f; for (int i = 0; i < nf; i++) f.push_back(i < nf / 2 ? 20000 : -20000);
  BKDataSetFrames(&d, f.data(), nf, 1, 1);
  if (spitch) BKSetAttr(&d, BK_SAMPLE_PITCH, (BKInt)spitch);
  CHECK(c, BKTrackAttach(&t, &ctx) == 0, "attach");
  if (w == BK_CUSTOM || w == BK_SAMPLE) CHECK(c, BKSetPtr(&t, w == BK_SAMPLE ? BK_SAMPLE : BK_WAVEFORM, &d, sizeof(void *)) == 0, "data refused");
  BKSetAttr(&t, BK_MASTER_VOLUME, 10000); BKSetAttr(&t, BK_VOLUME, BK_MAX_VOLUME);
  if (pitch) BKSetAttr(&t, BK_PITCH, (BKInt)pitch);
  CHECK(c, BKSetAttr(&t, BK_NOTE, (BKInt)note) == 0, "note");
  c.note("track %s %d Hz note %.5f pitch %.5f sample pitch %.5f", attrName(w), rate, note / (double)FU, pitch / (double)FU, spitch / (double)FU);
  BKFrame buf[256];
  CHECK(c, BKContextGenerate(&ctx, buf, 64) == 64, "generate");
  int64_t cn = std::min<int64_t>(note, (int64_t)BK_C_8 * FU);
  BKInt p = 0, count = 0;
  if (w == BK_SAMPLE) {
    CHECK(c, BKUnitGetAttr((BKUnit *)&t, BK_SAMPLE_PERIOD, &p) == 0, "sample period");
    checkLog2(c, cn + pitch + spitch, p);
  } else {
    CHECK(c, BKUnitGetAttr((BKUnit *)&t, BK_PERIOD, &p) == 0 && BKUnitGetAttr((BKUnit *)&t, BK_NUM_PHASES, &count) == 0, "period");
    int64_t cyc = (int64_t)p * count;
    // dividing by the number of phases truncates
    int64_t tt = std::min<int64_t>(std::max<int64_t>(cn + pitch, 0), (int64_t)BK_C_8 * FU);
    double exact = toneFrames(tt, rate) * FU;
    CHECK(c, cyc <= exact * 1.0006 + 2 && cyc >= exact - rate * 1.01 - 2 - count, "%s with %d phases sounds with a cycle of %.5f frames, expected %.5f", attrName(w), count, cyc / (double)FU, exact / FU);
  }
  BKDispose(&t); BKDispose(&d); BKDispose(&ctx);
  c.nontrivial();
  c.label(std::string("track ") + attrName(w));
}
static void test(Case &c) { if (c.flip()) lookup(c); else track(c); }
std::vector<vp::Property> vp_properties() {
  vp::Property p{"C09", "every semitone at seven rates; pairs of random fixed-point notes at random rates against exact equal temperament with the table's resolution as tolerance, order and octave relations; tracks with every waveform and their sounding period; non-trivial: every case evaluates the lookup", 400000, 4000000, test, {}};
  p.fixed.push_back(semitones);
  return {p};
}
VP_MAIN
