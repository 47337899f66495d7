#include "track.h"
// C14: arpeggio and pitch offsets.
static void checkArp(TrackRig &r) {
  BKInt got[BK_MAX_ARPEGGIO + 1 + 4];
  for (auto &x : got) x = 0x5a5a5a5a;
  int q = BKGetPtr(r.t, BK_ARPEGGIO, got, sizeof(BKInt) * (BK_MAX_ARPEGGIO + 1));
  CHECK(r.c, q == 0, "reading the arpeggio gives %d", q);
  CHECK(r.c, got[0] == (int)r.m.arp.size(), "tick %ld: arpeggio of %d notes read, %zu set", r.ticks, got[0], r.m.arp.size());
  for (size_t i = 0; i < r.m.arp.size(); i++) CHECK(r.c, got[1 + i] == r.m.arp[i], "tick %ld: arpeggio note %zu reads %d, set %d", r.ticks, i, got[1 + i], r.m.arp[i]);
  for (int i = BK_MAX_ARPEGGIO + 1; i < BK_MAX_ARPEGGIO + 5; i++) CHECK(r.c, got[i] == 0x5a5a5a5a, "memory after the arpeggio was written");
}
static void test(Case &c) {
  int ch = (int)c.pick({2, 1}), wave = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
  TrackRig r(c, ch, (int)c.pick({44100, 48000, 16000, 96000}), wave, (int)c.range(4, 30), CMP_MUTE | CMP_PERIOD | CMP_NOTE);
  if (c.chance(1, 6)) {
    // the same for a sample
    Frames f; int n = (int)c.range(2, 40); for (int i = 0; i < n; i++) f.push_back((BKFrame)(i * 300));
    BKData *d; CHECK(c, BKDataAlloc(&d) == 0 && BKDataSetFrames(d, f.data(), n, 1, 1) == 0, "data");
    int sp = c.flip() ? (int)c.range(-24, 24) * FU : 0;
    if (sp) CHECK(c, BKSetAttr(d, BK_SAMPLE_PITCH, sp) == 0, "sample pitch");
    CHECK(c, BKSetPtr(r.t, BK_SAMPLE, d, sizeof(void *)) == 0, "sample");
    CHECK(c, BKSetAttr(r.t, BK_SAMPLE_REPEAT, BK_REPEAT) == 0, "repeat");
    r.datas.push_back(d); r.m.wave = BK_SAMPLE; r.m.samplePitch = sp;
    c.note("sample of %d frames, pitch %d", n, sp);
    c.label("sample");
  }
  if (c.chance(1, 3)) {
    InstrSpec in; in.seq[BK_SEQUENCE_PITCH] = genSequence(c, BK_SEQUENCE_PITCH, 1 + c.draw(2), 4);
    c.note("instrument: %s", seqStr(in.seq[BK_SEQUENCE_PITCH]).c_str());
    r.addInstr(in); r.instrument(0); c.label("with an instrument");
  }
  r.master(BK_MAX_VOLUME / 2);
  int rounds = 3 + c.draw(c.thorough ? 40 : 20), arped = 0;
  for (int i = 0; i < rounds; i++) {
    int k = 1 + c.draw(3);
    while (k--) switch (i == 0 && !k ? 0 : c.weighted({5, 6, 2, 3, 3, 2, 2, 1, 1})) {
      case 0: r.note((int)c.edgy(0, BK_C_8 * FU, {0, BK_C_8 * FU, BK_C_4 * FU})); break;
      case 1: {
        int n = c.chance(1, 8) ? (int)c.range(9, 14) : (int)c.range(0, 8); std::vector<int> a;
        for (int j = 0; j < n; j++) a.push_back((int)(c.chance(1, 20) ? c.range(-130, 130) : c.edgy(-24, 24, {0, 12})) * FU + (c.chance(1, 4) ? (int)c.range(0, FU - 1) : 0));
        r.arp(a);
        break;
      }
      case 2: r.arp({}, c.flip()); break;
      case 3: { int p = (int)c.edgy(-48 * FU, 48 * FU, {0, FU, -FU / 2}); r.pitch(p); break; }
      case 4: r.divider(BK_ARPEGGIO_DIVIDER, c.chance(1, 10) ? (int)c.logRange(1, 400) : (int)c.range(1, 8)); break;
      case 5: r.note(c.flip() ? BK_NOTE_RELEASE : BK_NOTE_MUTE); break;
      case 6: if (r.m.vib.n) r.swing(BK_EFFECT_VIBRATO, 0, 0); else r.swing(BK_EFFECT_VIBRATO, (int)c.range(1, 40), (int)c.range(-3 * FU, 3 * FU)); break;
      case 7: r.effect(BK_EFFECT_PORTAMENTO, (int)c.range(0, 30)); break;
      default: {
        // the size bounds what is taken from the memory
        int n = (int)c.range(1, 8), claim = (int)c.edgy(-3, 1000000, {n, n + 1, 100, INT32_MAX, INT32_MIN, -INT32_MAX});
        std::vector<int> a; BKInt *blk = (BKInt *)::malloc(4 * (n + 1));
        blk[0] = claim;
        for (int j = 0; j < n; j++) { int v = (int)c.range(-12, 12) * FU; a.push_back(v); blk[1 + j] = v; }
        c.note("tick %ld: arpeggio of %d notes claiming %d", r.ticks, n, claim);
        CHECK(c, BKSetPtr(r.t, BK_ARPEGGIO, blk, 4 * (n + 1)) == 0, "arpeggio");
        ::free(blk);
        a.resize(std::max(0, std::min(n, claim)));
        r.m.setArp(a);
        break;
      }
    }
    checkArp(r);
    int nt = (int)c.logRange(1, 60);
    c.note("%d ticks", nt);
    while (nt--) { r.tick(); if (!r.m.mute && r.m.arp.size() > 1) arped++; }
  }
  if (arped > 5) c.nontrivial();
  r.dispose();
}
std::vector<vp::Property> vp_properties() {
  return {{"C14", "a track (or sample) under random histories of notes, arpeggios of every length and declared length, pitches, dividers, portamento, vibrato and pitch sequences; after every tick the period is compared with the sum of the offsets, the arpeggio is read back after each change; non-trivial: more than 5 ticks sounding with an arpeggio of several notes", 128000, 1280000, test, {}}};
}
VP_MAIN
