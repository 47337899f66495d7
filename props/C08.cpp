#include "common.h"
#include "model.h"
// C08: saturation and decay of constant levels.
static void loud(Case &c) {
  int n = (int)c.range(1, c.chance(1, 4) ? 12 : 5);
  int nch = (int)c.pick({1, 2});
  int64_t len = c.logRange(60, c.thorough ? 5000 : 2500);
  int kernel = (int)c.draw(2);
  BKContext ctx;
  CHECK(c, BKContextInit(&ctx, nch, 44100) == 0, "init");
  BKSetPtr(&ctx, BK_PULSE_KERNEL, (void *)BKBufferPulseKernels[kernel], sizeof(void *));
  std::vector<RefChannel> ch(nch, RefChannel(len, BKBufferPulseKernels[kernel]));
  std::vector<RefUnit> ref(n);
  std::vector<std::unique_ptr<Raw<BKUnit>>> u;
  c.note("%d units, %d channels, kernel %d, %lld frames", n, nch, kernel, (long long)len);
  bool phased = c.flip();
  int64_t p0 = c.logRange(FU / 2, 60LL * FU);
  std::vector<int64_t> muteAt;
  for (int i = 0; i < n; i++) {
    BKEnum w = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SQUARE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SINE, (BKEnum)BK_NOISE});
    int64_t p = phased ? p0 : c.logRange(FU / 2, 60LL * FU);
    int vol = (int)c.edgy(1, 32767, {32767, 32767, 32767, 16384});
    int duty = (int)c.range(1, 15);
    u.emplace_back(new Raw<BKUnit>());
    BKUnit *q = u.back()->p;
    BKUnitInit(q, w); BKSetAttr(q, BK_PERIOD, (BKInt)p); BKSetAttr(q, BK_DUTY_CYCLE, duty); BKSetAttr(q, BK_VOLUME, vol); BKSetAttr(q, BK_MUTE, 0);
    CHECK(c, BKUnitAttach(q, &ctx) == 0, "attach");
    ref[i].nch = nch; ref[i].out = &ch; ref[i].setWave(w); ref[i].duty = duty; ref[i].period = p;
    for (int k = 0; k < nch; k++) ref[i].vol[k] = vol;
    muteAt.push_back(c.chance(1, 2) ? c.range(1, len) : len);
    c.note("unit %d: %s period %.4f duty %d volume %d, muted at %lld", i, attrName(w), p / (double)FU, duty, vol, (long long)muteAt.back());
  }
  Frames out(len * nch);
  std::set<int64_t> cuts(muteAt.begin(), muteAt.end()); cuts.insert(len);
  int64_t pos = 0;
  for (int64_t e : cuts) {
    CHECK(c, BKContextGenerate(&ctx, out.data() + pos * nch, (BKUInt)(e - pos)) == e - pos, "generate");
    for (auto &r : ref) r.run(e * FU);
    pos = e;
    for (int i = 0; i < n; i++) if (muteAt[i] == e) { BKSetAttr(u[i]->p, BK_MUTE, 1); ref[i].mute = 1; }
  }
  for (auto &x : u) BKDispose(x->p);
  BKDispose(&ctx);
  bool clipped = false;
  for (int k = 0; k < nch; k++) {
    std::vector<int64_t> level;
    ch[k].render(len, &level);
    for (int64_t i = 0; i < len; i++) {
      int64_t want = clampi(level[i], -32768, 32767);
      if (want != level[i]) clipped = true;
      CHECK(c, out[i * nch + k] == want, "channel %d frame %lld: %d for a level of %lld", k, (long long)i, out[i * nch + k], (long long)level[i]);
    }
  }
  if (clipped) { c.nontrivial(); c.label("clipping"); } else c.label("not clipping");
}
static void decay(Case &c) {
  // one or several units leave a constant level behind when they are muted
  int n = (int)c.range(1, 8);
  int64_t step = c.range(1, 40);
  int sign = c.flip() ? 1 : -1;
  bool longRun = c.chance(1, c.thorough ? 3 : 10);
  int64_t len = longRun ? 16000 : c.range(100, 4000);
  BKContext ctx; BKContextInit(&ctx, 1, 44100);
  BKData d; BKDataInit(&d);
  Frames f(4, 0); int amp = (int)c.edgy(1, 32767, {32767, 1, 2}) * sign; f[1] = f[2] = f[3] = (BKFrame)amp;
  BKDataSetFrames(&d, f.data(), 4, 1, 1);
  std::vector<std::unique_ptr<Raw<BKUnit>>> u;
  int vol = (int)c.edgy(1, 32767, {32767});
  for (int i = 0; i < n; i++) {
    u.emplace_back(new Raw<BKUnit>()); BKUnit *q = u.back()->p;
    BKUnitInit(q, BK_SQUARE); BKUnitAttach(q, &ctx);
    CHECK(c, BKSetPtr(q, BK_WAVEFORM, &d, sizeof(void *)) == 0, "custom waveform refused"); BKSetAttr(q, BK_PERIOD, (BKInt)(step * FU)); BKSetAttr(q, BK_VOLUME, vol); BKSetAttr(q, BK_MUTE, 0);
  }
  // the step is made at frame `step`, then the units fall mute
  Frames out(len); int64_t pre = step + 1;
  c.note("%d units step to %d * %d at frame %lld, %lld frames", n, amp, vol, (long long)step, (long long)len);
  CHECK(c, BKContextGenerate(&ctx, out.data(), (BKUInt)pre) == pre, "generate");
  int how = c.draw(2);
  for (auto &q : u) { if (how) BKSetAttr(q->p, BK_MUTE, 1); else BKSetAttr(q->p, BK_PERIOD, 0); }
  int64_t pos = pre;
  while (pos < len) { int64_t m = std::min(len - pos, c.chance(1, 3) ? c.range(1, 3000) : (int64_t)4096); CHECK(c, BKContextGenerate(&ctx, out.data() + pos, (BKUInt)m) == m, "generate"); pos += m; }
  for (int64_t i = step + 33; i < len; i++) {
    int a = out[i - 1], b = out[i];
    CHECK(c, sign > 0 ? b >= 0 && b <= a : b <= 0 && b >= a, "frame %lld: a constant level goes from %d to %d", (long long)i, a, b);
  }
  if (longRun) CHECK(c, out[len - 1] == 0, "a constant level has not faded after %lld frames: %d", (long long)len, out[len - 1]);
  for (auto &x : u) BKDispose(x->p);
  BKDispose(&d); BKDispose(&ctx);
  if (std::abs(out[std::min(len - 1, step + 40)]) > 20) { c.nontrivial(); c.label("decay from an audible level"); }
  c.label(longRun ? "decay to silence" : "decay");
}
static void test(Case &c) { if (c.weighted({3, 2}) == 0) loud(c); else decay(c); }
std::vector<vp::Property> vp_properties() {
  return {{"C08", "up to 12 units at volumes up to full scale, muted at random times, against the unbounded reference level clamped to 16 bits; constant levels of either sign followed until they fade; non-trivial: some level is out of range, or a level above 20 decays", 356000, 3560000, test, {}}};
}
VP_MAIN
