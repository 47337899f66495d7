#include "common.h"
#include "model.h"
// C06: waveform synthesis against an independent reference.
struct UOp { int64_t at; int attr; int v; };
static void test(Case &c) {
  int nch = (int)c.pick({1, 1, 2, 3});
  int kernel = (int)c.draw(3) - 1;
  BKEnum waves[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE, BK_CUSTOM};
  BKEnum w0 = waves[c.draw(6)];
  std::vector<int> custom;
  int cn = (int)c.pick({2, 3, 16, 63, 64, 65, 100, 7});
  for (int i = 0; i < cn; i++) custom.push_back((int)c.range(-32768, 32767));
  int64_t len = c.logRange(40, c.thorough ? 6000 : 2000);
  auto periodVal = [&] { int k = c.draw(4); return (int)(k == 0 ? c.range(2048, FU) : k == 1 ? c.range(1, 20) * FU : k == 2 ? c.logRange(FU / 4, 60LL * FU) : c.range(FU, 8 * FU)); };
  int vmax = c.pick({16000, 32767, 8000, 3});
  auto volVal = [&] { return (int)(c.chance(1, 6) ? c.pick({(int64_t)0, (int64_t)1, (int64_t)vmax}) : c.range(0, vmax)); };
  std::vector<UOp> ops;
  ops.push_back({0, BK_PERIOD, periodVal()});
  ops.push_back({0, BK_VOLUME, std::max(1, volVal())});
  if (c.flip()) ops.push_back({0, BK_DUTY_CYCLE, (int)c.range(0, 17)});
  ops.push_back({0, BK_MUTE, 0});
  int n = (int)c.range(0, 12);
  bool changed = false;
  for (int i = 0; i < n; i++) {
    UOp o; o.at = c.range(0, len - 1);
    switch (c.weighted({5, 4, 4, 3, 3, 2, 3, 3})) {
      case 0: o.attr = BK_PERIOD; o.v = periodVal(); break;
      case 1: o.attr = BK_VOLUME; o.v = volVal(); break;
      case 2: o.attr = BK_VOLUME_0 + (int)c.draw(nch); o.v = volVal(); break;
      case 3: o.attr = BK_DUTY_CYCLE; o.v = (int)c.range(-1, 18); break;
      case 4: o.attr = BK_PHASE; o.v = (int)c.pick({(int64_t)0, (int64_t)-1, c.range(0, 40), (int64_t)70000, c.range(1, 65535)}); break;
      case 5: o.attr = BK_PHASE_WRAP; o.v = (int)c.pick({(int64_t)0, (int64_t)1, (int64_t)2, c.range(2, 50)}); break;
      case 6: o.attr = BK_MUTE; o.v = (int)c.draw(2); break;
      default: o.attr = BK_WAVEFORM; o.v = (int)waves[c.draw(6)]; break;
    }
    ops.push_back(o); changed = true;
  }
  std::stable_sort(ops.begin(), ops.end(), [](const UOp &a, const UOp &b) { return a.at < b.at; });
  c.note("%d channels, kernel %d, %s, %lld frames, custom %d frames", nch, kernel, attrName(w0), (long long)len, cn);
  for (auto &o : ops) c.note("@%lld %s %d%s", (long long)o.at, attrName(o.attr), o.v, o.attr == BK_WAVEFORM ? attrName(o.v) : "");
  // real
  BKContext ctx; BKUnit unit; BKData data;
  CHECK(c, BKContextInit(&ctx, nch, 44100) == 0 && BKUnitInit(&unit, w0 == BK_CUSTOM ? BK_SQUARE : w0) == 0 && BKDataInit(&data) == 0, "init");
  std::vector<BKFrame> cf(custom.begin(), custom.end());
  CHECK(c, BKDataSetFrames(&data, cf.data(), cn, 1, 1) == 0, "set frames");
  if (kernel >= 0) BKSetPtr(&ctx, BK_PULSE_KERNEL, (void *)BKBufferPulseKernels[kernel], sizeof(void *));
  CHECK(c, BKUnitAttach(&unit, &ctx) == 0, "attach");
  // reference
  std::vector<RefChannel> ch(nch, RefChannel(len, BKBufferPulseKernels[kernel >= 0 ? kernel : BK_PULSE_KERNEL_HARM]));
  RefUnit r; r.nch = nch; r.out = &ch; r.custom = custom;
  auto setCustom = [&] { r.wave = BK_CUSTOM; r.phase = 0; r.count = std::min(cn, 64); };
  if (w0 == BK_CUSTOM) { BKSetPtr(&unit, BK_WAVEFORM, &data, sizeof(void *)); r.setWave(BK_SQUARE); setCustom(); }
  else r.setWave(w0);
  std::vector<BKFrame> got((size_t)len * nch);
  int64_t pos = 0; size_t k = 0;
  bool sounded = false;
  while (pos < len) {
    for (; k < ops.size() && ops[k].at <= pos; k++) {
      UOp &o = ops[k];
      int res;
      if (o.attr == BK_WAVEFORM && o.v == BK_CUSTOM) { res = BKSetPtr(&unit, BK_WAVEFORM, &data, sizeof(void *)); setCustom(); }
      else {
        res = BKSetAttr(&unit, o.attr, o.v);
        switch (o.attr) {
          case BK_PERIOD: r.period = o.v; break;
          case BK_VOLUME: for (int i = 0; i < 8; i++) r.vol[i] = o.v; break;
          case BK_DUTY_CYCLE: { int d = (int)clampi(o.v, 1, 15); if (r.wave == BK_SQUARE && d > r.duty && (int)r.phase < d) r.phase = 0; r.duty = d; break; }
          case BK_PHASE: r.phase = (unsigned)clampi(o.v, 0, r.count - 1); break;
          case BK_PHASE_WRAP: r.phase = 0; r.wrap = r.wrapCount = o.v ? std::max(o.v, 2) : 0; break;
          case BK_MUTE: r.mute = o.v; break;
          case BK_WAVEFORM: r.setWave(o.v); break;
          default: r.vol[o.attr - BK_VOLUME_0] = o.v;
        }
      }
      CHECK(c, res == 0, "setting %s to %d failed: %d", attrName(o.attr), o.v, res);
    }
    int64_t next = k < ops.size() ? std::min(len, ops[k].at) : len;
    // ask in one piece or in two
    int64_t cut = c.chance(1, 4) ? c.range(pos + 1, next) : next;
    for (int64_t e : {cut, next}) if (e > pos) {
      int g = BKContextGenerate(&ctx, got.data() + pos * nch, (BKUInt)(e - pos));
      CHECK(c, g == e - pos, "generated %d of %lld", g, (long long)(e - pos));
      r.run(e * FU);
      pos = e;
    }
  }
  for (int i = 0; i < nch; i++) {
    auto want = ch[i].render(len);
    for (int64_t f = 0; f < len; f++) {
      CHECK(c, got[f * nch + i] == want[f], "channel %d frame %lld: %d, expected %d", i, (long long)f, got[f * nch + i], want[f]);
      sounded |= want[f] != 0;
    }
  }
  BKDispose(&unit); BKDispose(&data); BKDispose(&ctx);
  if (sounded && changed) c.nontrivial();
  c.label(attrName(w0));
}
std::vector<vp::Property> vp_properties() {
  return {{"C06", "one unit with random waveform, period, volumes, duty cycle, kernel and up to 12 timed parameter changes against a reference synthesiser, sample for sample; non-trivial: audible and at least one change", 246000, 2460000, test, {}}};
}
VP_MAIN
