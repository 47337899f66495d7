// What C36 observes of one program; compiled once with the library as every other check builds it, and once per other
// build of the library (src/alt.cpp).
#ifndef VP_ALT_H
#define VP_ALT_H
#include "common.h"
struct Prog {
  Scene scene;
  std::vector<int> pieces;               // sizes of requests
  double until = 0;                      // then generated up to a time, in seconds after the end
  std::vector<uint8_t> raw; BKEnum bits = 0, endian = 0; int rawChannels = 1;
  std::vector<int> tones, rates;
  int depth = 16;                        // bits of the WAVE file
};
typedef std::vector<int64_t> Seen;
static BKInt altWrite(BKFrame *f, BKUInt n, void *u) {
  auto *k = (std::pair<Seen *, int> *)u;
  for (BKUInt i = 0; i < n * k->second; i++) k->first->push_back(f[i]);
  return 0;
}
static void altState(Player &p, Seen &out) {
  for (auto &s : p.src) {
    if (!s.u) continue;
    for (BKEnum at = BK_WAVEFORM; at <= (BKEnum)BK_TRIANGLE_IGNORES_VOLUME; at++) { BKInt v = -77; out.push_back(BKGetAttr(s.u, at, &v)); out.push_back(v); }
    if (!s.t) continue;
    for (BKEnum at = BK_EFFECT_VOLUME_SLIDE; at <= (BKEnum)BK_EFFECT_VIBRATO; at++) { BKInt v[3] = {-77, -77, -77}; out.push_back(BKGetPtr(s.t, at, v, sizeof v)); for (int x : v) out.push_back(x); }
  }
  BKTime t = 0; out.push_back(BKGetPtr(p.ctx, BK_TIME, &t, sizeof t)); out.push_back(t);
}
static void altData(BKData &d, Seen &out) {
  BKInt n = 0, k = 0; BKGetAttr(&d, BK_NUM_FRAMES, &n); BKGetAttr(&d, BK_NUM_CHANNELS, &k);
  out.push_back(n); out.push_back(k);
  for (int i = 0; i < n * k; i++) out.push_back(d.frames[i]);
}
static void altObserve(const Prog &g, Seen &out) {
  {
    Player p(g.scene); p.setup();
    int64_t left = g.scene.length; size_t i = 0;
    Frames f;
    while (p.pos < left && p.err.empty()) {
      while (p.nextOp < g.scene.ops.size() && g.scene.ops[p.nextOp].at <= p.pos) p.apply(g.scene.ops[p.nextOp++]);
      int64_t until = left;
      if (p.nextOp < g.scene.ops.size()) until = std::min(until, g.scene.ops[p.nextOp].at);
      p.pos += p.produce(f, until - p.pos, [&](int64_t) { return (int64_t)g.pieces[i++ % g.pieces.size()]; });
      altState(p, out);
    }
    for (auto x : f) out.push_back(x);
    std::pair<Seen *, int> k(&out, g.scene.channels);
    if (g.until > 0) { BKTime t = BKTimeFromSeconds(p.ctx, g.until + (double)left / g.scene.rate); out.push_back(t); out.push_back(BKContextGenerateToTime(p.ctx, t, altWrite, &k)); altState(p, out); }
    for (int x : p.status) out.push_back(x);
    out.push_back(p.err.empty());
    // rendering written to a file and read again
    FILE *file = tmpfile(); BKWaveFileWriter w; BKWaveFileReader r; BKData d;
    if (file && !f.empty()) {
      out.push_back(BKWaveFileWriterInit(&w, file, g.scene.channels, g.scene.rate, g.depth));
      out.push_back(BKWaveFileWriterAppendFrames(&w, f.data(), (BKInt)std::min<size_t>(f.size(), 400u * g.scene.channels)));
      out.push_back(BKWaveFileWriterTerminate(&w)); BKDispose(&w);
      rewind(file);
      for (int ch; (ch = fgetc(file)) != EOF;) out.push_back(ch);
      rewind(file);
      BKInt rate = 0;
      BKInt nc = 0, nf = 0; (void)rate; (void)nc; (void)nf; (void)r;
      BKDataInit(&d); out.push_back(BKDataLoadWAVE(&d, file)); altData(d, out);
      out.push_back(BKDataNormalize(&d)); altData(d, out); BKDispose(&d);
    }
    if (file) fclose(file);
  }
  BKData d; BKDataInit(&d);
  out.push_back(BKDataSetData(&d, g.raw.data(), (BKUInt)g.raw.size(), g.rawChannels, g.bits | g.endian)); altData(d, out);
  BKDispose(&d);
  for (int t : g.tones) { for (int r : g.rates) out.push_back(BKTonePeriodLookup(t, r)); out.push_back(BKLog2PeriodLookup(t)); }
}
static Prog genProg(Case &c) {
  SceneOpts o; o.maxLen = c.thorough ? 6000 : 2500; o.maxOps = 20;
  Prog g; g.scene = genScene(c, o);
  // ordinary operations with values far outside
  int wild = c.chance(1, 3) ? (int)c.range(1, 3) : 0;
  for (int i = 0; i < wild && !g.scene.ops.empty(); i++) {
    Op &op = g.scene.ops[c.draw((uint32_t)g.scene.ops.size())];
    int x = c.pick({INT32_MAX, INT32_MIN, INT32_MIN + 1, 0, -1, 1 << 30, -(1 << 30)});
    if (op.kind == OP_EFFECT || op.kind == OP_RANGE || op.kind == OP_SUSTAIN || op.kind == OP_ARP) { if (!op.v.empty()) op.v[c.draw((uint32_t)op.v.size())] = x; continue; }
    if (op.kind != OP_ATTR || op.attr == BK_PERIOD || op.attr == BK_WAVEFORM || op.attr == BK_ARPEGGIO_DIVIDER || op.attr == BK_EFFECT_DIVIDER || op.attr == BK_INSTRUMENT_DIVIDER || op.attr == BK_MASTER_VOLUME) continue;
    op.v[0] = x;
  }
  for (auto &in : g.scene.instrs) if (c.chance(1, 6)) {
    SeqSpec &q = in.seq[c.draw(4)];
    if (q.kind) q.values[c.draw((uint32_t)q.values.size())] = c.pick({INT32_MAX, INT32_MIN, INT32_MIN + 1, -1, 1 << 30, -(1 << 30)});
  }
  int n = 1 + c.draw(4);
  for (int i = 0; i < n; i++) g.pieces.push_back((int)c.logRange(1, 2000));
  if (c.flip()) g.until = c.draw(100000) / 2000000.0;
  int rn = (int)c.range(0, 60);
  for (int i = 0; i < rn; i++) g.raw.push_back((uint8_t)(c.flip() ? c.draw(256) : c.pick({0, 255, 128, 127})));
  g.bits = c.pick({(BKEnum)BK_1_BIT_UNSIGNED, (BKEnum)BK_2_BIT_UNSIGNED, (BKEnum)BK_4_BIT_UNSIGNED, (BKEnum)BK_8_BIT_SIGNED, (BKEnum)BK_8_BIT_UNSIGNED, (BKEnum)BK_16_BIT_SIGNED});
  g.endian = c.pick({0u, (BKEnum)BK_LITTLE_ENDIAN, (BKEnum)BK_BIG_ENDIAN});
  g.rawChannels = 1 + c.draw(3);
  g.depth = c.flip() ? 16 : 8;
  for (int i = 0; i < 6; i++) g.tones.push_back((int)c.edgy(-60 * FU, 110 * FU, {0, BK_C_8 * FU, BK_A_3 * FU}));
  for (int i = 0; i < 2; i++) g.rates.push_back((int)c.range(16000, 96000));
  return g;
}
static void describeProg(Case &c, const Prog &g) {
  describe(c, g.scene);
  c.note("pieces %d..., until %.6f s, %zu raw bytes %#x, %d channels, depth %d", g.pieces[0], g.until, g.raw.size(), g.bits | g.endian, g.rawChannels, g.depth);
}
#endif
