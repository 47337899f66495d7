#include "track.h"
// C15: stepped sequences, compared tick by tick with a reference of the whole track.
static void test(Case &c) {
  int ch = (int)c.pick({2, 1, 2, 3}), wave = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
  TrackRig r(c, ch, (int)c.pick({44100, 48000, 16000, 96000}), wave, (int)c.range(4, 40), CMP_MUTE | CMP_PERIOD | CMP_VOLUME | CMP_DUTY | CMP_NOTE);
  int ni = 1 + c.draw(2);
  for (int i = 0; i < ni; i++) {
    InstrSpec in; std::string d;
    for (int k = 0; k < 4; k++) if (c.flip()) { in.seq[k] = genSequence(c, k, 1); d += " [" + std::to_string(k) + "] " + seqStr(in.seq[k]); }
    c.note("instrument %d:%s", i, d.c_str());
    r.addInstr(in);
  }
  r.master((int)c.range(1, BK_MAX_VOLUME));
  if (c.flip()) r.volume((int)c.range(1, BK_MAX_VOLUME));
  if (c.flip()) r.duty((int)c.range(1, 15));
  if (c.flip()) r.divider(BK_INSTRUMENT_DIVIDER, (int)c.range(1, 6));
  int rounds = 2 + c.draw(c.thorough ? 30 : 14);
  int attacks = 0, releases = 0;
  for (int i = 0; i < rounds; i++) {
    int k = 1 + c.draw(2);
    while (k--) switch (i == 0 ? (k ? 3 : 0) : c.weighted({6, 5, 2, 3, 2, 1, 1, 1, 1})) {
      case 0: r.note((int)c.range(BK_C_1, BK_C_7) * FU); attacks++; break;
      case 1: r.note(BK_NOTE_RELEASE); releases++; break;
      case 2: r.note(BK_NOTE_MUTE); break;
      case 3: r.instrument((int)c.range(0, ni - 1)); break;
      case 4: r.divider(BK_INSTRUMENT_DIVIDER, c.chance(1, 10) ? (int)c.logRange(1, 400) : (int)c.range(1, 6)); break;
      case 5: r.instrument(-1); break;
      case 6: r.volume((int)c.range(0, BK_MAX_VOLUME)); break;
      case 7: r.duty((int)c.range(1, 15)); break;
      default: {
        // replace a sequence of an instrument
        int n = (int)c.draw((uint32_t)ni), s = c.draw(4);
        InstrSpec &in = r.specs[n];
        if (c.chance(1, 3)) { in.seq[s] = SeqSpec(); c.note("tick %ld: instrument %d slot %d removed", r.ticks, n, s); BKInstrumentSetSequence(r.instrs[n], s, NULL, 0, 0, 0); }
        else {
          in.seq[s] = genSequence(c, s, 1); auto &q = in.seq[s];
          c.note("tick %ld: instrument %d slot %d %s", r.ticks, n, s, seqStr(q).c_str());
          CHECK(c, BKInstrumentSetSequence(r.instrs[n], s, q.values.data(), q.values.size(), q.off, q.len) == 0, "set sequence");
        }
        if (r.m.instrIdx == n) r.m.replaced(in);
      }
    }
    int nt = (int)c.logRange(1, 60);
    c.note("%d ticks", nt);
    while (nt--) r.tick();
  }
  if (r.audible && attacks && r.ticks > 8) c.nontrivial();
  if (releases) c.label("released");
  r.dispose();
}
std::vector<vp::Property> vp_properties() {
  return {{"C15", "a track with instruments of stepped sequences in random slots, driven by random notes, releases, mutes, instrument changes, divider changes and sequence replacements; after every tick mute state, period, channel volumes and duty cycle are compared with a reference; non-trivial: at least one note heard and more than 8 ticks", 200000, 2000000, test, {}}};
}
VP_MAIN
