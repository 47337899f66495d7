#include "common.h"
// C31: a track sounds like a plain unit set, tick by tick, to the values the track reports.
static void test(Case &c) {
  SceneOpts o; o.units = false; o.volume = 0.9;
  Scene s;
  s.channels = (int)c.pick({2, 1, 2, 3, 8}); s.rate = (int)c.pick({44100, 48000, 16000, 96000});
  if (c.chance(1, 3)) s.kernel = (int)c.draw(2);
  int P = (int)c.logRange(10, 500);
  s.masterPeriod = P;
  for (int i = (int)c.draw(3); i > 0; i--) s.data.push_back(genData(c, c.chance(1, 4) ? s.channels : 1, 64));
  for (int i = (int)c.draw(3); i > 0; i--) s.instrs.push_back(genInstr(c));
  SourceSpec sp; sp.track = true; sp.alloc = c.flip();
  sp.wave = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_SINE, (BKEnum)BK_NOISE});
  s.sources.push_back(sp);
  int ticks = 5 + (int)c.draw(c.thorough ? 200 : 60);
  auto add = [&](int at, OpKind k, BKEnum a, std::vector<int> v) { Op op; op.at = at; op.kind = k; op.attr = a; op.v = v; s.ops.push_back(op); };
  add(0, OP_ATTR, BK_MASTER_VOLUME, {(int)c.range(3000, 29000)});
  if (!s.data.empty() && c.flip()) { add(0, OP_DATA, c.flip() ? BK_SAMPLE : BK_WAVEFORM, {(int)c.draw((uint32_t)s.data.size())}); }
  if (!s.instrs.empty() && c.flip()) add(0, OP_INSTR, 0, {(int)c.draw((uint32_t)s.instrs.size())});
  add(0, OP_ATTR, BK_NOTE, {noteVal(c)});
  int nops = (int)c.draw(c.thorough ? 60 : 25);
  for (int i = 0; i < nops; i++) {
    Op op = genOp(c, s, 0, o, 29000);
    if (s.data.empty() && c.chance(1, 30)) { op.kind = OP_CLEAR; }
    else if (c.chance(1, 15)) { op = Op(); op.kind = OP_ATTR; op.attr = BK_WAVEFORM; op.v = {(int)c.pick({(BKEnum)BK_NOISE, (BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_TRIANGLE})}; }
    else if (c.chance(1, 30)) { op = Op(); op.kind = OP_ATTR; op.attr = BK_MUTE; op.v = {(int)c.draw(2)}; }
    op.at = c.range(0, ticks - 1); s.ops.push_back(op);
  }
  std::stable_sort(s.ops.begin(), s.ops.end(), [](const Op &a, const Op &b) { return a.at < b.at; });
  c.note("positions are ticks of %d frames, %d ticks", P, ticks);
  describe(c, s);
  Player pl(s); pl.setup();
  CHECK(c, pl.err.empty(), "%s", pl.err.c_str());
  BKTrack *t = pl.src[0].t;
  BKContext &b = *(BKContext *)::malloc(sizeof(BKContext)); BKUnit &u = *(BKUnit *)::malloc(sizeof(BKUnit));
  CHECK(c, BKContextInit(&b, s.channels, s.rate) == 0 && BKUnitInit(&u, sp.wave) == 0 && BKUnitAttach(&u, &b) == 0, "unit");
  if (s.kernel >= 0) BKSetPtr(&b, BK_PULSE_KERNEL, (void *)BKBufferPulseKernels[s.kernel], sizeof(void *));
  auto get = [&](BKEnum a) { BKInt v = 0; int r = BKGetAttr(t, a, &v); CHECK(c, r == 0, "reading %s of the track gives %s", attrName(a), BKStatusGetName(r)); return v; };
  auto set = [&](BKEnum a, int v) { int r = BKSetAttr(&u, a, v); CHECK(c, r == 0, "setting %s %d on the unit gives %s", attrName(a), v, BKStatusGetName(r)); };
  // the waveform set by data is reported as such
  const BKData *cur = nullptr; int wave = sp.wave; 
  auto mirror = [&](bool mute) {
    if (mute) set(BK_MUTE, get(BK_MUTE));
    if (wave == BK_SAMPLE) set(BK_SAMPLE_PERIOD, get(BK_SAMPLE_PERIOD)); else set(BK_PERIOD, get(BK_PERIOD));
    set(BK_DUTY_CYCLE, get(BK_DUTY_CYCLE));
    for (int i = 0; i < s.channels; i++) set((BKEnum)(BK_VOLUME_0 + i), get((BKEnum)(BK_VOLUME_0 + i)));
  };
  mirror(true);
  Frames fa((size_t)P * s.channels), fb((size_t)P * s.channels);
  size_t k = 0; long sounding = 0, changed = 0; int lastP = -1, lastV = -1;
  for (int tick = 0; tick < ticks; tick++) {
    for (; k < s.ops.size() && s.ops[k].at <= tick; k++) {
      const Op &op = s.ops[k];
      bool begins = op.kind == OP_ATTR && op.attr == BK_NOTE && op.v[0] >= 0 && get(BK_NOTE) == -1 && wave == BK_SAMPLE;
      size_t st = pl.status.size();
      pl.apply(op);
      bool ok = pl.status.size() == st || pl.status.back() == 0;
      CHECK(c, ok, "%s gives %s", opStr(op).c_str(), BKStatusGetName(pl.status.back()));
      if (op.kind == OP_DATA) {
        BKData *d = pl.data[op.v[0]];
        int w = op.attr == BK_SAMPLE ? BK_SAMPLE : BK_CUSTOM;
        if (!(wave == w && cur == d && w == BK_SAMPLE)) {
          int r = BKSetPtr(&u, op.attr, d, sizeof(void *)); CHECK(c, r == 0, "data on the unit gives %s", BKStatusGetName(r));
          // samples of a track repeat only if told so; the end of a sample mutes, which is not part of the tick
          if (w == BK_SAMPLE) { int rep = d->numFrames % 2 ? BK_REPEAT : BK_PALINDROME; set(BK_SAMPLE_REPEAT, rep); BKSetAttr(t, BK_SAMPLE_REPEAT, rep); }
        }
        wave = w; cur = d;
      }
      if (op.kind == OP_ATTR && op.attr == BK_WAVEFORM) { set(BK_WAVEFORM, op.v[0]); wave = op.v[0]; cur = nullptr; }
      CHECK(c, get(BK_WAVEFORM) == wave, "the track reports waveform %s instead of %s", attrName(get(BK_WAVEFORM)), attrName(wave));
      if (begins) set(BK_PHASE, -1);
      mirror(true);
    }
    int r = BKContextGenerate(pl.ctx, fa.data(), P); CHECK(c, r == P, "tick %d: track generated %d", tick, r);
    mirror(true);
    r = BKContextGenerate(&b, fb.data(), P); CHECK(c, r == P, "tick %d: unit generated %d", tick, r);
    size_t d = firstDiff(fa, fb);
    CHECK(c, d == fa.size(), "tick %d: the track gives %s, the unit set to its values %s, from sample %zu", tick, framesStr(fa.data() + d, fa.size() - d, 8).c_str(), framesStr(fb.data() + d, fb.size() - d, 8).c_str(), d);
    bool on = !get(BK_MUTE); int p = get(BK_PERIOD), v = get(BK_VOLUME_0);
    if (on && energy(fa) > fa.size() / 4) sounding++;
    if (on && lastP >= 0 && (p != lastP || v != lastV)) changed++;
    lastP = p; lastV = v;
  }
  if (sounding > 3 && changed > 1) c.nontrivial();
  c.label(attrName(wave));
  BKDispose(&u); BKDispose(&b); ::free(&u); ::free(&b);
}
std::vector<vp::Property> vp_properties() {
  return {{"C31", "a track under random notes, effects, arpeggios, instruments, waveforms, samples and dividers, one tick per request, against a plain unit in another context without clocks which is set to the values the track reports after each request and tick; all samples equal; non-trivial: sounding in more than 3 ticks and the reported period or volume changed in more than one", 78000, 780000, test, {}}};
}
VP_MAIN
