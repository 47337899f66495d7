#include "track.h"
// C10: life of a note, by what the track reports and by what is heard.
struct Ear {      // listens to the audio of the rig
  Case &c; TrackRig &r;
  long silentFrames = 0; std::vector<int> last;
  long soundFrames = 0; int lo[8], hi[8]; int minVol = 1 << 30; double maxPer = 0; int checkedSound = 0, checkedSilence = 0;
  Ear(Case &c_, TrackRig &r_) : c(c_), r(r_), last(r_.m.channels, 0) { restart(); }
  void restart() { soundFrames = 0; minVol = 1 << 30; maxPer = 0; for (int i = 0; i < 8; i++) { lo[i] = 1 << 20; hi[i] = -(1 << 20); } }
  void tick() {
    bool wasMute = r.m.mute;
    r.tick();
    int ch = r.m.channels;
    bool mute = r.m.mute && wasMute;
    if (mute) {
      for (int k = 0; k < r.P; k++, silentFrames++) for (int i = 0; i < ch; i++) {
        int v = r.buf[(size_t)k * ch + i];
        if (silentFrames > 34) { CHECK(c, abs(v) <= abs(last[i]), "tick %ld: frame %d: the output moves from %d to %d although the note has ended", r.ticks - 1, k, last[i], v); checkedSilence++; }
        last[i] = v;
      }
    } else { silentFrames = 0; for (int i = 0; i < ch; i++) last[i] = r.buf[(size_t)(r.P - 1) * ch + i]; }
    if (!r.m.mute && !wasMute) {
      double per = (double)r.get(BK_PERIOD) / FU * r.m.count;
      int v = 1 << 30; for (int i = 0; i < std::min(ch, 2); i++) v = std::min(v, r.get((BKEnum)(BK_VOLUME_0 + i)));
      minVol = std::min(minVol, v); maxPer = std::max(maxPer, per);
      for (int k = 0; k < r.P; k++) for (int i = 0; i < ch; i++) { int x = r.buf[(size_t)k * ch + i]; lo[i] = std::min(lo[i], x); hi[i] = std::max(hi[i], x); }
      soundFrames += r.P;
      if (soundFrames > 3 * maxPer + 100 && minVol > 1000 && maxPer > 8 && r.m.wave != BK_NOISE) {
        for (int i = 0; i < ch; i++) CHECK(c, hi[i] - lo[i] > minVol / 16, "tick %ld: nothing is heard of a sounding note: channel %d stays in %d..%d over %ld frames (volume %d, period %.1f)", r.ticks - 1, i, lo[i], hi[i], soundFrames, minVol, maxPer);
        checkedSound++; restart();
      }
    } else restart();
  }
};
// the same for notes of a repeated sample
static void testSample(Case &c) {
  int ch = (int)c.pick({2, 1}), rate = (int)c.pick({44100, 48000, 16000}), P = rate / 240 + 1;
  struct Objs { BKContext ctx; BKTrack t; BKData d; bool made = false; ~Objs() { if (made) { BKDispose(&t); BKDispose(&d); BKDispose(&ctx); } } } o;
  CHECK(c, BKContextInit(&o.ctx, ch, rate) == 0 && BKTrackInit(&o.t, BK_SQUARE) == 0 && BKDataInit(&o.d) == 0, "init");
  o.made = true;
  int n = (int)c.range(8, 800), sus = c.chance(1, 3);
  Frames fr(n); for (int i = 0; i < n; i++) fr[i] = (BKFrame)((i * 7 % 64 - 32) * 900);
  BKDataSetFrames(&o.d, fr.data(), n, 1, 1);
  BKInt range[2] = {(BKInt)c.range(0, n / 2 - 2), (BKInt)c.range(n / 2, n)};
  c.note("%d channels, %d Hz, sample of %d frames, sustain range %d..%d%s", ch, rate, n, sus ? range[0] : 0, sus ? range[1] : 0, c.verbose ? "" : "");
  CHECK(c, BKSetAttr(&o.t, BK_MASTER_VOLUME, 20000) == 0 && BKTrackAttach(&o.t, &o.ctx) == 0 && BKSetPtr(&o.t, BK_SAMPLE, &o.d, sizeof(void *)) == 0, "setup");
  BKSetAttr(&o.t, BK_SAMPLE_REPEAT, BK_REPEAT);
  if (sus) CHECK(c, BKSetPtr(&o.t, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof range) == 0, "sustain range");
  auto get = [&](BKEnum a) { BKInt v = -99; CHECK(c, BKGetAttr(&o.t, a, &v) == 0, "attribute %#x", a); return v; };
  int note = -1, mute = 1, heard = 0, silent = 0, ended = 0; bool moved = false;
  long quiet = 0; std::vector<BKFrame> buf((size_t)P * ch); int last[2] = {0, 0};
  int rounds = 3 + c.draw(12);
  for (int i = 0; i < rounds; i++) {
    int k = (int)c.draw(4);
    if (i == 0 && !k) k = 1;
    while (k--) {
      int before = get(BK_PHASE), act = i == 0 && !k ? 0 : c.weighted({6, 4, 3, 1});
      switch (act) {
        case 0: {
          int v = (int)c.range(BK_C_3, BK_C_5) * FU;
          c.note("note %d", v); BKSetAttr(&o.t, BK_NOTE, v);
          int now = get(BK_PHASE);
          if (note == -1) CHECK(c, now == 0, "a new note starts at frame %d of the sample", now);
          else CHECK(c, now == before, "changing the tone of a sounding note moves the sample from frame %d to %d", before, now);
          note = v; mute = 0; break;
        }
        case 1: c.note("release"); BKSetAttr(&o.t, BK_NOTE, BK_NOTE_RELEASE); note = -1; if (!sus) mute = 1; ended++; break;
        case 2: c.note("mute"); BKSetAttr(&o.t, BK_NOTE, BK_NOTE_MUTE); note = -1; mute = 1; ended++; break;
        default: { int v = (int)c.range(-12, 12) * FU; c.note("pitch %d", v); BKSetAttr(&o.t, BK_PITCH, v); }
      }
      CHECK(c, get(BK_NOTE) == note && get(BK_MUTE) == mute, "note %d, mute %d; expected %d, %d", get(BK_NOTE), get(BK_MUTE), note, mute);
    }
    int nt = (int)c.logRange(1, 20); c.note("%d ticks", nt);
    int lo = 1 << 20, hi = -lo, at = get(BK_PHASE);
    for (int t = 0; t < nt; t++) {
      CHECK(c, BKContextGenerate(&o.ctx, buf.data(), P) == P, "generate");
      CHECK(c, get(BK_NOTE) == note && get(BK_MUTE) == mute, "tick %d: note %d, mute %d; expected %d, %d", t, get(BK_NOTE), get(BK_MUTE), note, mute);
      for (int f = 0; f < P; f++, quiet = mute ? quiet + 1 : 0) for (int q = 0; q < ch; q++) {
        int v = buf[(size_t)f * ch + q];
        if (mute && quiet > 2 * P + 40) { CHECK(c, abs(v) <= abs(last[q]), "the output moves from %d to %d although the note has ended", last[q], v); silent++; }
        last[q] = v; if (t > 2) { lo = std::min(lo, v); hi = std::max(hi, v); }
      }
    }
    if (!mute && nt > 10) { CHECK(c, hi - lo > 300, "nothing is heard of a note: %d..%d", lo, hi); heard++; }
    if (mute && !quiet) quiet = 1;
    moved = moved || get(BK_PHASE) != at;
  }
  if (ended && moved) c.nontrivial();
  c.label("notes of samples");
  if (heard) c.label("sample heard");
  if (silent > 100) c.label("silence heard");
}
static void test(Case &c) {
  if (c.chance(1, 6)) { testSample(c); return; }
  int ch = (int)c.pick({2, 1, 2, 3}), wave = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
  TrackRig r(c, ch, (int)c.pick({44100, 48000, 16000, 96000}), wave, (int)c.range(10, 120), CMP_MUTE | CMP_PERIOD | CMP_NOTE);
  Ear ear(c, r);
  int ni = (int)c.draw(3);
  for (int i = 0; i < ni; i++) {
    InstrSpec in; std::string d;
    for (int k = 0; k < 4; k++) if (c.chance(1, 3)) { in.seq[k] = genSequence(c, k, 1 + c.draw(2), 5, 12); d += " [" + std::to_string(k) + "] " + seqStr(in.seq[k]); }
    c.note("instrument %d:%s", i, d.c_str());
    r.addInstr(in);
  }
  CHECK(c, r.get(BK_NOTE) == -1 && r.get(BK_MUTE) == 1, "a new track reports note %d, mute %d", r.get(BK_NOTE), r.get(BK_MUTE));
  r.master((int)c.range(4000, BK_MAX_VOLUME / 4));
  int rounds = 3 + c.draw(c.thorough ? 40 : 20), on = 0, off = 0;
  for (int i = 0; i < rounds; i++) {
    int k = (int)c.draw(4);
    if (i == 0 && !k) k = 1;
    while (k--) {
      switch (i == 0 && !k ? 0 : c.weighted({8, 5, 4, 2, 2, 2, 1, 1, 1, 1})) {
        case 0: r.note((int)c.edgy(0, BK_C_8 * FU, {0, BK_C_8 * FU, BK_C_8 * FU + 1, BK_INT_MAX, BK_C_4 * FU, BK_C_6 * FU})); on++; break;
        case 1: r.note(BK_NOTE_RELEASE); off++; break;
        case 2: r.note(BK_NOTE_MUTE); off++; break;
        case 3: if (ni) { r.instrument((int)c.range(-1, ni - 1)); break; } /* fallthrough */
        case 4: r.pitch((int)c.range(-24 * FU, 24 * FU)); break;
        case 5: { std::vector<int> ws = {BK_SQUARE, BK_SINE, BK_SAWTOOTH, BK_NOISE, BK_TRIANGLE}; r.wave(ws[c.draw(5)]); break; }
        case 6: r.effect(BK_EFFECT_PORTAMENTO, (int)c.range(0, 20)); break;
        case 7: { std::vector<int> a; for (int j = (int)c.draw(4); j > 0; j--) a.push_back((int)c.range(0, 12) * FU); r.arp(a); break; }
        case 8: { int m = (int)c.draw(2); if (!m && r.m.curNote == -1 && r.m.ins.on) m = 1; c.note("tick %ld: BK_MUTE %d", r.ticks, m); r.set(BK_MUTE, m); r.m.mute = m; break; }
        default: r.divider(BK_INSTRUMENT_DIVIDER, (int)c.range(1, 5)); break;
      }
      r.checkNote("after the request");
    }
    int nt = (int)c.logRange(1, 30);
    c.note("%d ticks", nt);
    while (nt--) ear.tick();
  }
  if (on && off && r.audible) c.nontrivial();
  if (ear.checkedSound) c.label("sound heard");
  if (ear.checkedSilence > 100) c.label("silence heard");
  r.dispose();
}
std::vector<vp::Property> vp_properties() {
  return {{"C10", "a track under random sequences of notes (also out of range), releases, mutes, pitch, waveform, instrument and effect requests; reported note and mute are compared with a reference after each request and tick, the period after each tick, and the audio must swing while a note sounds and only decay after it ended; non-trivial: a note started, one ended, something sounded", 92000, 920000, test, {}}};
}
VP_MAIN
