#include "track.h"
// C26: loudness is the product of volume, master volume, instrument volume and panning share.
// audio: a steady custom wave of two levels; its swing is measured after settling
static void testAudio(Case &c) {
  int ch = (int)c.pick({2, 2, 2, 1, 3}), rate = 44100;
  TrackRig r(c, ch, rate, BK_SQUARE, 2000, CMP_MUTE | CMP_VOLUME);
  // a wave of one single level: constant output which decays slowly
  int amp = (int)c.edgy(4000, 32767, {32767, 16384});
  Frames f(2, (BKFrame)amp); f[1] = (BKFrame)amp;
  BKData *d; CHECK(c, BKDataAlloc(&d) == 0 && BKDataSetFrames(d, f.data(), 2, 1, 1) == 0, "data");
  CHECK(c, BKSetPtr(r.t, BK_WAVEFORM, d, sizeof(void *)) == 0, "custom wave");
  r.datas.push_back(d); r.m.wave = BK_CUSTOM; r.m.count = 2;
  int iv = BK_MAX_VOLUME;
  if (c.flip()) { InstrSpec in; SeqSpec q; q.kind = 1; iv = (int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME}); q.values = {iv}; q.off = 0; q.len = 1; in.seq[0] = q; r.addInstr(in); r.instrument(0); }
  int mv = (int)c.edgy(0, BK_MAX_VOLUME / 2, {BK_MAX_VOLUME / 2, 0}), v = (int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME}), pan = (int)c.edgy(-BK_MAX_VOLUME, BK_MAX_VOLUME, {0, -BK_MAX_VOLUME, BK_MAX_VOLUME});
  r.master(mv); r.volume(v); r.panning(pan);
  r.note(BK_C_4 * FU);
  r.tick();
  // the level right after the filter has settled, relative to an undamped reference of the same chain
  double share[8];
  for (int i = 0; i < ch; i++) share[i] = ch == 2 ? (i == 0 ? (pan > 0 ? 1.0 - (double)pan / BK_MAX_VOLUME : 1) : (pan < 0 ? 1.0 + (double)pan / BK_MAX_VOLUME : 1)) : 1;
  for (int i = 0; i < ch; i++) {
    // highest absolute value over the block: the step response settles at twice the amplitude
    double want = 2.0 * amp * v / 32768.0 * mv / 32768.0 * iv / 32768.0 * share[i];
    if (r.m.ins.on == false) want = 2.0 * amp * v / 32768.0 * mv / 32768.0 * share[i];
    int at = 40; double decay = pow(1 - 1.0 / 512, at - 16);
    double got = r.buf[(size_t)at * ch + i];
    want = std::min(want * decay, 32767.0);
    CHECK(c, fabs(got - want) <= 0.02 * want + 12, "channel %d: level %.0f, expected %.0f (volume %d, master %d, instrument %d, panning %d, amplitude %d)", i, got, want, v, mv, r.m.ins.on ? iv : -1, pan, amp);
    if (want == 0) for (int k = 0; k < 2000; k++) CHECK(c, r.buf[(size_t)k * ch + i] == 0, "channel %d is audible at frame %d although its volume is zero", i, k);
    if (want > 500) c.nontrivial();
  }
  c.label("audio level");
  r.dispose();
}
static void test(Case &c) {
  if (c.chance(1, 4)) { testAudio(c); return; }
  int ch = (int)c.pick({2, 2, 2, 1, 3, 4, 8}), wave = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
  TrackRig r(c, ch, (int)c.pick({44100, 48000, 16000, 96000}), wave, (int)c.range(4, 20), CMP_MUTE | CMP_VOLUME);
  int ni = (int)c.draw(3);
  for (int i = 0; i < ni; i++) {
    InstrSpec in;
    in.seq[BK_SEQUENCE_VOLUME] = genSequence(c, BK_SEQUENCE_VOLUME, 1 + c.draw(2), 4);
    if (c.flip()) in.seq[BK_SEQUENCE_PANNING] = genSequence(c, BK_SEQUENCE_PANNING, 1 + c.draw(2), 4);
    c.note("instrument %d: %s; %s", i, seqStr(in.seq[0]).c_str(), in.seq[1].kind ? seqStr(in.seq[1]).c_str() : "no panning");
    r.addInstr(in);
  }
  int rounds = 3 + c.draw(c.thorough ? 40 : 20), heard = 0;
  std::vector<int> waves = {BK_SQUARE, BK_SINE, BK_SAWTOOTH, BK_NOISE, BK_TRIANGLE};
  for (int i = 0; i < rounds; i++) {
    int k = 1 + c.draw(3);
    while (k--) switch (i == 0 && !k ? 0 : c.weighted({4, 5, 5, 5, 2, 2, 2, 1, 1, 1})) {
      case 0: r.note((int)c.range(BK_C_2, BK_C_6) * FU); break;
      case 1: r.volume((int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME, 1, -5, 40000})); break;
      case 2: r.panning((int)c.edgy(-BK_MAX_VOLUME, BK_MAX_VOLUME, {0, -BK_MAX_VOLUME, BK_MAX_VOLUME, 50000, -50000, 1, -1})); break;
      case 3: r.master((int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME, -1, 50000, 1})); break;
      case 4: if (ni) { r.instrument((int)c.range(-1, ni - 1)); break; } /* fallthrough */
      case 5: r.tri((int)c.draw(2)); break;
      case 6: r.wave(waves[c.draw(5)]); break;
      case 7: r.note(BK_NOTE_RELEASE); break;
      case 9: ch = (int)c.pick({2, 2, 1, 3, 4, 8}); r.move(ch, (int)c.pick({44100, 48000, 16000, 96000})); break;
      default: {
        if (r.m.trem.n) r.swing(BK_EFFECT_TREMOLO, 0, 0); else r.swing(BK_EFFECT_TREMOLO, (int)c.range(1, 20), (int)c.range(0, BK_MAX_VOLUME));
      }
    }
    int nt = (int)c.logRange(1, 25);
    c.note("%d ticks", nt);
    while (nt--) {
      r.tick();
      int mx = 0;
      for (int q = 0; q < ch; q++) {
        int v = r.get((BKEnum)(BK_VOLUME_0 + q));
        CHECK(c, v >= 0 && v <= r.m.master, "channel %d has volume %d, above the master volume %d", q, v, r.m.master);
        mx = std::max(mx, v);
      }
      if (mx && !r.m.mute) heard++;
    }
  }
  if (heard > 3) c.nontrivial();
  c.label("volumes per tick");
  r.dispose();
}
std::vector<vp::Property> vp_properties() {
  return {{"C26", "a track on 1 to 8 channels under random histories of volume, master volume, panning, instruments with volume and panning sequences, tremolo and waveform changes; after every tick each channel's volume is compared with the product; one in four cases measures the level of the audio of a constant wave; non-trivial: more than 3 audible ticks, or a measured level above 500", 200000, 2000000, test, {}}};
}
VP_MAIN
