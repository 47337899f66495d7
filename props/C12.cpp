#include "track.h"
// C12: slides of volume, panning and pitch.
static void test(Case &c) {
  int ch = (int)c.pick({2, 1, 2, 2, 3}), wave = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
  TrackRig r(c, ch, (int)c.pick({44100, 48000, 16000, 96000}), wave, (int)c.range(4, 30), CMP_MUTE | CMP_PERIOD | CMP_VOLUME | CMP_NOTE);
  if (c.chance(1, 5)) {
    InstrSpec in; in.seq[BK_SEQUENCE_VOLUME] = genSequence(c, BK_SEQUENCE_VOLUME, 1, 3); r.addInstr(in);
    c.note("instrument: %s", seqStr(in.seq[0]).c_str());
    r.instrument(0); c.label("with an instrument");
  }
  r.master((int)c.edgy(0, BK_MAX_VOLUME, {BK_MAX_VOLUME}));
  if (wave == BK_TRIANGLE) r.tri((int)c.draw(2));
  auto steps = [&]() { return c.chance(1, c.thorough ? 12 : 40) ? (int)c.edgy(0, 70000, {65535, 65536, 65537}) : c.chance(1, 12) ? (int)c.logRange(100, 3000) : (int)c.edgy(0, 120, {0, 1, 2, 3}); };
  int rounds = 3 + c.draw(c.thorough ? 40 : 20), slid = 0, cut = 0;
  for (int i = 0; i < rounds; i++) {
    int k = 1 + c.draw(3);
    while (k--) {
      if ((r.m.vol.left && r.m.volOn) || (r.m.pan.left && r.m.panOn) || (r.m.note.left && r.m.portOn)) cut++;
      switch (i == 0 && !k ? 0 : c.weighted({5, 5, 5, 3, 3, 3, 2, 1, 1, 1})) {
        case 0: r.note((int)c.edgy(0, BK_C_8 * FU, {0, BK_C_8 * FU, BK_C_4 * FU})); break;
        case 1: r.volume((int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME, 1, -5, 40000})); break;
        case 2: r.panning((int)c.edgy(-BK_MAX_VOLUME, BK_MAX_VOLUME, {0, -BK_MAX_VOLUME, BK_MAX_VOLUME, 50000, -50000})); break;
        case 3: r.effect(BK_EFFECT_VOLUME_SLIDE, steps(), c.weighted({3, 1, 1})); break;
        case 4: r.effect(BK_EFFECT_PANNING_SLIDE, steps(), c.weighted({3, 1, 1})); break;
        case 5: r.effect(BK_EFFECT_PORTAMENTO, steps(), c.weighted({3, 1, 1})); break;
        case 6: r.divider(BK_EFFECT_DIVIDER, c.chance(1, 10) ? (int)c.logRange(1, 400) : (int)c.range(1, 7)); break;
        case 7: r.note(BK_NOTE_RELEASE); break;
        case 8: r.note(BK_NOTE_MUTE); break;
        default: r.master((int)c.range(0, BK_MAX_VOLUME)); break;
      }
    }
    int nt = (int)c.logRange(1, 150);
    c.note("%d ticks", nt);
    while (nt--) { r.tick(); if (!r.m.mute && ((r.m.vol.left && r.m.volOn) || (r.m.pan.left && r.m.panOn) || (r.m.note.left && r.m.portOn))) slid++; }
  }
  // run every slide to its end: exactly there and staying
  int rest = std::max(r.m.vol.left, std::max(r.m.pan.left, r.m.note.left)) * r.m.effDiv.d + r.m.effDiv.d + 2;
  if (rest < (c.chance(1, 50) ? 80000 : 3000)) {
    if (rest > 3000) c.label("a slide of thousands of ticks");
    c.note("%d ticks to the end", rest);
    while (rest--) r.tick();
    c.label("run to the end");
  }
  if (slid > 3) c.nontrivial();
  if (cut) c.label("interrupted slide");
  r.dispose();
}
std::vector<vp::Property> vp_properties() {
  return {{"C12", "a track under random histories of volume, panning and note changes, slide lengths set by attribute, values or NULL, effect dividers, releases and mutes; after every tick volumes per channel and period are compared with an even interpolation, exactly where it ends; non-trivial: more than 3 ticks sounding on the way of a slide", 78000, 780000, test, {}}};
}
VP_MAIN
