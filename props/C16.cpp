#include "track.h"
// C16: envelopes and ADSR.
static int setEnv(BKInstrument *p, int slot, const SeqSpec &q) {
  size_t n = q.values.size();
  BKSequencePhase *ph = (BKSequencePhase *)::malloc(n * sizeof *ph);
  for (size_t i = 0; i < n; i++) { ph[i].steps = q.steps[i]; ph[i].value = q.values[i]; }
  int r = BKInstrumentSetEnvelope(p, slot, ph, n, q.off, q.len);
  ::free(ph);
  return r;
}
// the shorthand and the four phases it stands for give the same values all the time
static void testAdsr(Case &c) {
  int a = (int)c.edgy(0, 60, {0, 1}), d = (int)c.edgy(0, 60, {0, 1}), s = (int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME}), rl = (int)c.edgy(0, 60, {0, 1});
  int P = (int)c.range(4, 40), rate = 44100;
  c.note("ADSR %d %d %d %d", a, d, s, rl);
  BKContext ctx; BKContextInit(&ctx, 1, rate);
  BKTime p = (BKTime)P * FU; BKSetPtr(&ctx, BK_CLOCK_PERIOD, &p, sizeof p);
  Raw<BKTrack> t[2]; Raw<BKInstrument> in[2];
  SeqSpec q = RefTrack::adsr(a, d, s, rl);
  for (int i = 0; i < 2; i++) {
    BKInstrumentInit(in[i].p);
    CHECK(c, (i ? setEnv(in[i].p, BK_SEQUENCE_VOLUME, q) : BKInstrumentSetEnvelopeADSR(in[i].p, a, d, s, rl)) == 0, "setting the envelope");
    CHECK(c, BKTrackInit(t[i].p, BK_SQUARE) == 0 && BKTrackAttach(t[i].p, &ctx) == 0, "track");
    BKSetAttr(t[i].p, BK_MASTER_VOLUME, BK_MAX_VOLUME / 4);
    BKSetPtr(t[i].p, BK_INSTRUMENT, in[i].p, sizeof(void *));
  }
  std::vector<BKFrame> buf(P + 8);
  long tick = 0; int heard = 0;
  int rounds = 1 + c.draw(6);
  for (int i = 0; i < rounds; i++) {
    int n = i % 2 == 0 || c.flip() ? (int)(BK_C_4 * FU) : c.chance(1, 4) ? (int)BK_NOTE_MUTE : (int)BK_NOTE_RELEASE;
    for (int k = 0; k < 2; k++) BKSetAttr(t[k].p, BK_NOTE, n);
    int nt = (int)c.logRange(1, 300);
    c.note("tick %ld: note %d, %d ticks", tick, n, nt);
    for (int j = 0; j < nt; j++, tick++) {
      CHECK(c, BKContextGenerate(&ctx, buf.data(), P) == P, "generate");
      BKInt v[2], m[2], no[2];
      for (int k = 0; k < 2; k++) { BKGetAttr(t[k].p, BK_VOLUME_0, &v[k]); BKGetAttr(t[k].p, BK_MUTE, &m[k]); BKGetAttr(t[k].p, BK_NOTE, &no[k]); }
      CHECK(c, v[0] == v[1] && m[0] == m[1] && no[0] == no[1], "tick %ld: ADSR volume %d mute %d note %d, envelope volume %d mute %d note %d", tick, v[0], m[0], no[0], v[1], m[1], no[1]);
      if (v[0] && !m[0]) heard++;
    }
  }
  for (int k = 0; k < 2; k++) { BKDispose(t[k].p); BKDispose(in[k].p); }
  BKDispose(&ctx);
  if (heard > 4) c.nontrivial();
  c.label("shorthand against phases");
}
static void test(Case &c) {
  if (c.chance(1, 6)) { testAdsr(c); return; }
  int ch = (int)c.pick({2, 1, 2, 3}), wave = (int)c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_SAWTOOTH, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
  TrackRig r(c, ch, (int)c.pick({44100, 48000, 16000, 96000}), wave, (int)c.range(4, 40), CMP_MUTE | CMP_PERIOD | CMP_VOLUME | CMP_DUTY | CMP_NOTE);
  int ni = 1 + c.draw(2);
  for (int i = 0; i < ni; i++) {
    InstrSpec in; std::string d;
    for (int k = 0; k < 4; k++) if (c.flip()) { in.seq[k] = genSequence(c, k, c.chance(1, 6) ? 1 : 2, 6, c.chance(1, 5) ? 200 : 20); d += " [" + std::to_string(k) + "] " + seqStr(in.seq[k]); }
    if (c.chance(1, 4)) { in.seq[0] = SeqSpec(); in.adsr = true; in.a = (int)c.range(0, 30); in.d = (int)c.range(0, 30); in.s = (int)c.range(0, BK_MAX_VOLUME); in.r = (int)c.range(0, 30); d += " adsr " + std::to_string(in.a) + "," + std::to_string(in.d) + "," + std::to_string(in.s) + "," + std::to_string(in.r); }
    c.note("instrument %d:%s", i, d.c_str());
    r.addInstr(in);
  }
  r.master((int)c.range(1, BK_MAX_VOLUME));
  if (c.flip()) r.volume((int)c.range(1, BK_MAX_VOLUME));
  if (c.flip()) r.duty((int)c.range(1, 15));
  if (c.flip()) r.divider(BK_INSTRUMENT_DIVIDER, (int)c.range(1, 6));
  int rounds = 2 + c.draw(c.thorough ? 30 : 14);
  int attacks = 0, releases = 0, refused = 0;
  for (int i = 0; i < rounds; i++) {
    int k = 1 + c.draw(2);
    while (k--) switch (i == 0 ? (k ? 3 : 0) : c.weighted({6, 5, 2, 3, 2, 1, 1, 1, 2})) {
      case 0: r.note((int)c.range(BK_C_1, BK_C_7) * FU); attacks++; break;
      case 1: r.note(BK_NOTE_RELEASE); releases++; break;
      case 2: r.note(BK_NOTE_MUTE); break;
      case 3: r.instrument((int)c.range(0, ni - 1)); break;
      case 4: r.divider(BK_INSTRUMENT_DIVIDER, c.chance(1, 10) ? (int)c.logRange(1, 400) : (int)c.range(1, 6)); break;
      case 5: r.instrument(-1); break;
      case 6: r.volume((int)c.range(0, BK_MAX_VOLUME)); break;
      case 7: {
        int n = (int)c.draw((uint32_t)ni), s = c.draw(4);
        InstrSpec &in = r.specs[n];
        if (s == 0) in.adsr = false;
        in.seq[s] = genSequence(c, s, 2, 6); auto &q = in.seq[s];
        c.note("tick %ld: instrument %d slot %d %s", r.ticks, n, s, seqStr(q).c_str());
        CHECK(c, setEnv(r.instrs[n], s, q) == 0, "set envelope");
        if (r.m.instrIdx == n) r.m.replaced(in);
        break;
      }
      default: {
        // a sustain range which would loop without taking time
        int n = (int)c.draw((uint32_t)ni), s = c.draw(4);
        SeqSpec q = genSequence(c, s, 2, 6);
        q.off = (int)c.draw((uint32_t)q.values.size());
        q.len = (int)c.range(0, (int)q.values.size() - q.off);
        for (int j = q.off; j < q.off + q.len; j++) q.steps[j] = 0;
        const void *before = BKInstrumentGetSequence(r.instrs[n], s);
        int st = setEnv(r.instrs[n], s, q);
        c.note("tick %ld: instrument %d slot %d endless %s: %s", r.ticks, n, s, seqStr(q).c_str(), BKStatusGetName(st));
        CHECK(c, st == BK_INVALID_VALUE, "an envelope looping without taking time gives %d", st);
        CHECK(c, before == BKInstrumentGetSequence(r.instrs[n], s), "a refused envelope replaced the sequence");
        refused++;
      }
    }
    int nt = (int)c.logRange(1, 120);
    c.note("%d ticks", nt);
    while (nt--) r.tick();
  }
  if (r.audible && attacks && r.ticks > 8) c.nontrivial();
  if (releases) c.label("released");
  if (refused) c.label("refused envelope");
  r.dispose();
}
std::vector<vp::Property> vp_properties() {
  return {{"C16", "a track with instruments of random envelopes and ADSR shorthands, driven by random notes, releases, mutes, instrument changes, replacements and refused envelopes; after every tick mute state, period, channel volumes and duty cycle are compared with a linear interpolation reference; one in six cases compares the shorthand with its four phases; non-trivial: at least one note heard for several ticks", 160000, 1600000, test, {}}};
}
VP_MAIN
