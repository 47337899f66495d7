#ifndef VP_TRACK_H
#define VP_TRACK_H
// Reference of a track's control state, advanced tick by tick, and a rig that drives a real track
// with the same requests and compares what can be read back from it after every tick.
#include "common.h"

struct RefSlide {
  double v = 0; int end = 0, n = 0, left = 0, err = 0;   // err: steps taken since the value was exact
  void set(int e) { end = e; if (n) left = n; else { left = 0; v = e; err = 0; } }
  void steps(int k) { n = k; set(end); }
  void step() { if (left > 0) { v += (end - v) / left; err++; if (--left == 0) { v = end; err = 0; } } }
  void halt(bool toEnd) { left = 0; if (toEnd) { v = end; err = 0; } }
  bool exact() const { return err == 0; }
};
// swing through zero, peak, zero, opposite peak; each quarter takes n ticks
struct RefSwing {
  int delta = 0, n = 0, phase = 0, step = 0;
  void set(int d, int k) { delta = d; n = k; phase = step = 0; if (!k) delta = 0; }
  double value() const {
    if (!n) return 0;
    double f = (double)step / n;
    switch (phase) { case 0: return delta * f; case 1: return delta * (1 - f); case 2: return -delta * f; default: return -delta * (1 - f); }
  }
  void tick() { if (n && ++step >= n) { step = 0; phase = (phase + 1) % 4; } }
};
struct RefSeq {
  SeqSpec q; int pos = 0; bool fin = true; int phase = 0; // 0 mute 1 attack 2 release
  double v = 0; int left = 0; int end = 0; bool exactV = true;
  long err = 0, lost = 0;      // steps taken and interruptions (each drops a fraction) since the value was exact
  int n() const { return (int)q.values.size(); }
  void setValue(int x) { v = x; exact(); }
  void exact() { exactV = true; err = lost = 0; }
  int slack(int perStep) const { return q.kind == 2 && !exactV ? (int)(2 + lost + err / perStep) : 0; }
  bool setPhase(int p) {       // true: has finished
    phase = p; left = 0; fin = false;
    if (!exactV) lost++;
    pos = p == 0 ? n() : p == 1 ? 0 : q.off + q.len;
    if (p == 0) { fin = true; return true; }
    if (q.kind == 1) { if (pos < n()) { v = q.values[pos]; return false; } fin = true; return true; }
    return stepEnv();
  }
  bool stepSimple() {          // true: finishes now
    if (fin) return false;
    if (phase == 1 && pos >= q.off + q.len) pos = q.off;
    if (pos < n()) { v = q.values[pos++]; return false; }
    fin = true; return true;
  }
  bool stepEnv() {
    if (fin) return false;
    if (left) {
      if (--left > 0) { v += (end - v) / (left + 1); exactV = false; err++; return false; }
      v = end; exact(); pos++;
    }
    for (int guard = 0; guard < 1000; guard++) {
      if (phase == 1 && pos >= q.off + q.len) pos = q.off;
      if (pos >= n()) { fin = true; return true; }
      if (q.steps[pos]) { left = q.steps[pos]; end = q.values[pos]; return false; }
      v = q.values[pos++]; exact();
    }
    return false;
  }
};
struct RefInstr {
  RefSeq s[4]; bool on = false; int phase = 0, active = 0; bool ended = false;
  static int def(int k) { return k == BK_SEQUENCE_VOLUME ? BK_MAX_VOLUME : 0; }
  void defaults() { for (int k = 0; k < 4; k++) s[k].setValue(s[k].q.kind ? 0 : def(k)); }
  void setPhase(int p) {
    ended = false;
    if (!on || (p == 2 && phase == 2)) return;
    active = 0;
    for (auto &x : s) if (x.q.kind && !x.setPhase(p)) active++;
    if (p == 2 && active == 0) p = 0;
    if (p == 0) { if (phase != 0) { phase = 0; ended = true; } }
    else phase = p;
  }
  bool tick(bool divided) {    // true: all sequences have ended
    bool e = false;
    for (auto &x : s) {
      if (!x.q.kind) continue;
      bool f = x.q.kind == 1 ? (divided && x.stepSimple()) : x.stepEnv();
      if (f && --active == 0) { setPhase(0); if (ended) e = true; }
    }
    return e;
  }
};
struct RefDiv { int d = 1, c = 0; bool tick() { bool t = false; if (c == 0) { c = d; t = true; } c--; return t; } };

struct Expect { bool sound = false; int lo = 0, hi = 0; int vol0lo = 0, vol0hi = 0, vol1lo = 0, vol1hi = 0; int duty = 0; bool dutyExact = true; };

struct RefTrack {
  int wave = BK_SQUARE, count = 16, rate = 44100, channels = 2;
  int duty = 4, master = 0, pitch = 0, samplePitch = 0;
  RefSlide vol, pan, note;
  bool volOn = false, panOn = false, portOn = false;
  bool ignoreTri = true;
  int curNote = -1; bool mute = true;
  std::vector<int> arp; int arpOff = 0, arpDelta = 0;
  RefDiv arpDiv, effDiv, insDiv;
  RefInstr ins;
  RefSwing trem, vib;
  int instrIdx = -1;
  RefTrack() { vol.set(BK_MAX_VOLUME); arpDiv.d = 4; insDiv.d = 4; effDiv.d = 1; }
  static int phases(int w) { return w == BK_TRIANGLE || w == BK_SINE ? 32 : w == BK_NOISE ? 8 : w == BK_SAWTOOTH ? 7 : 16; }
  void setWave(int w) { wave = w; count = phases(w); }
  void attack() { if (ins.s[3].q.kind) ins.s[3].setValue(duty); insDiv.c = 0; ins.setPhase(1); }
  void setNote(int n) {
    if (n >= 0) {
      n = std::min(std::max(n, 0), (int)BK_C_8 * FU);
      note.set(n);
      if (curNote == -1) { note.halt(true); if (ins.on) attack(); arpOff = 0; }
      curNote = n; mute = false;
    } else if (n == BK_NOTE_RELEASE) {
      curNote = -1;
      if (ins.on) { ins.setPhase(2); if (ins.ended) { ins.ended = false; setNote(BK_NOTE_MUTE); } }
      else { note.halt(false); mute = true; }
    } else if (n == BK_NOTE_MUTE) {
      curNote = -1; note.halt(true);
      if (ins.on) ins.setPhase(0);
      mute = true;
    }
  }
  void setInstr(const InstrSpec *in, int idx) {
    if (idx == instrIdx) return;
    instrIdx = idx;
    if (in) {
      ins = RefInstr(); ins.on = true;
      loadSeqs(*in);
      ins.defaults();
      insDiv.c = 0;
      if (curNote == -1) { ins.phase = 1; ins.setPhase(0); if (ins.ended) { ins.ended = false; setNote(BK_NOTE_MUTE); } } else { if (ins.s[3].q.kind) ins.s[3].setValue(duty); attack(); }
    } else {
      ins = RefInstr(); ins.defaults();
      if (curNote == -1) setNote(BK_NOTE_MUTE);
    }
  }
  static SeqSpec adsr(int a, int d, int s, int r) { SeqSpec q; q.kind = 2; q.values = {BK_MAX_VOLUME, s, s, 0}; q.steps = {a, d, 240, r}; q.off = 2; q.len = 1; return q; }
  void loadSeqs(const InstrSpec &in) {
    for (int k = 0; k < 4; k++) ins.s[k].q = in.seq[k];
    if (in.adsr) ins.s[0].q = adsr(in.a, in.d, in.s, in.r);
  }
  // a sequence of the instrument in use was replaced: note and sequences end
  void replaced(const InstrSpec &in) { loadSeqs(in); ins.defaults(); ins.setPhase(0); if (ins.ended) { ins.ended = false; setNote(BK_NOTE_MUTE); } }
  void setArp(const std::vector<int> &a) { arp = a; if (arpOff >= (int)arp.size()) arpOff = 0; }
  void setEffect(BKEnum e, int n) {
    n = std::min(std::max(n, 0), 1 << 16);
    if (e == BK_EFFECT_VOLUME_SLIDE) { vol.steps(n); volOn = n; }
    if (e == BK_EFFECT_PANNING_SLIDE) { pan.steps(n); panOn = n; }
    if (e == BK_EFFECT_PORTAMENTO) { note.steps(n); portOn = n; }
  }
  static int mul(int a, int b) { return (int)(((int64_t)a * b) >> 15); }
  int volumeFor(int v, int iv, int t) const {
    bool ign = wave == BK_TRIANGLE && ignoreTri;
    if (ign && v) v = BK_MAX_VOLUME;
    if (ins.on && (!ign || iv == 0)) v = mul(v, iv);
    if (trem.n && !ign) v = mul(v, std::min(std::max(t, 0), (int)BK_MAX_VOLUME));
    v = std::min(std::max(v, 0), (int)BK_MAX_VOLUME);
    return mul(v, master);
  }
  Expect expect() const {
    Expect e;
    e.sound = !mute;
    int v = (int)floor(vol.v + 0.5), tv = vol.exact() ? 0 : 2;
    int iv = ins.on ? (int)floor(ins.s[0].v) : 0, ti = ins.on ? ins.s[0].slack(1 << 14) : 0;
    auto pos = [](int x) { return std::max(x, 0); };
    int tr = trem.n ? BK_MAX_VOLUME - (int)floor(fabs(trem.value()) + 0.5) : BK_MAX_VOLUME, tt = trem.n && trem.step ? 2 : 0;
    int lo = volumeFor(v == 0 ? 0 : pos(v - tv), pos(iv - ti), tr - tt), hi = volumeFor(v + tv, iv + ti, tr + tt);
    if (wave == BK_TRIANGLE && ignoreTri) { if (v - tv <= 0 && tv) lo = 0; if (v + tv > 0 && tv) {} if (ti && iv - ti <= 0) lo = 0; }
    int p = (int)floor(pan.v + 0.5), tp = pan.exact() ? 0 : 2;
    if (ins.on) { p += (int)floor(ins.s[1].v); tp += ins.s[1].slack(1 << 14); }
    e.vol0lo = e.vol1lo = lo; e.vol0hi = e.vol1hi = hi;
    if (channels == 2) {
      auto far = [](int vol, int pan) { pan = std::min(std::max(pan, 0), (int)BK_MAX_VOLUME); return pan ? mul(BK_MAX_VOLUME - pan, vol) : vol; };
      e.vol0lo = far(lo, p + tp); e.vol0hi = far(hi, p - tp);
      e.vol1lo = far(lo, -(p - tp)); e.vol1hi = far(hi, -(p + tp));
    }
    double nn = note.v; int tn = note.exact() ? 0 : note.err + 2;
    if (arp.size()) nn += arpDelta;
    if (ins.on) { nn += floor(ins.s[2].v); if (int k = ins.s[2].slack(8)) tn += 18 + k; }
    nn += pitch;
    if (vib.n) { nn += floor(vib.value() + 0.5); if (vib.step) tn += vib.n + 2; }
    // higher notes have smaller periods
    if (wave != BK_SAMPLE) {
      e.lo = (int)(BKTonePeriodLookup((BKInt)floor(nn) + tn, rate) / std::min(count, 64)) - (tn ? 1 : 0);
      e.hi = (int)(BKTonePeriodLookup((BKInt)floor(nn) - tn, rate) / std::min(count, 64)) + (tn ? 1 : 0);
    } else {
      nn += samplePitch;
      // samples advance faster
      e.lo = (int)BKLog2PeriodLookup((BKInt)floor(nn) - tn) - (tn ? 1 : 0);
      e.hi = (int)BKLog2PeriodLookup((BKInt)floor(nn) + tn) + (tn ? 1 : 0);
      auto cl = [](int x) { return std::min(std::max(x, 1 << 12), 1 << 28); };
      e.lo = cl(e.lo); e.hi = cl(e.hi);
    }
    e.duty = duty;
    if (ins.on && ins.s[3].q.kind) {
      int d = (int)floor(ins.s[3].v);
      if (d) e.duty = d;
      if (ins.s[3].q.kind == 2 && !ins.s[3].exactV) e.dutyExact = false;
    }
    e.duty = std::min(std::max(e.duty, 1), 15);
    return e;
  }
  double dutyReal() const { return ins.s[3].v; }
  // advance one tick; the expectation returned is what the unit is set to from this tick on
  Expect tick() {
    if (arp.size() && arpDiv.tick()) { arpDelta = arp[arpOff++]; if (arpOff >= (int)arp.size()) arpOff = 0; }
    if (ins.on) { bool d = insDiv.tick(); if (ins.tick(d)) setNote(BK_NOTE_MUTE); }
    Expect e = expect();
    if (volOn || panOn || portOn || trem.n || vib.n) if (effDiv.tick()) { trem.tick(); vib.tick(); if (portOn) note.step(); if (volOn) vol.step(); if (panOn) pan.step(); }
    return e;
  }
};

enum { CMP_MUTE = 1, CMP_PERIOD = 2, CMP_VOLUME = 4, CMP_DUTY = 8, CMP_NOTE = 16 };

struct TrackRig {
  Case &c;
  BKContext ctx; BKTrack *t = nullptr; Raw<BKTrack> raw;
  std::vector<BKInstrument *> instrs; std::vector<InstrSpec> specs; std::vector<BKData *> datas;
  RefTrack m;
  int P; long ticks = 0; std::vector<BKFrame> buf; bool alloced = false, audible = false; int cmp;
  TrackRig(Case &c_, int channels, int rate, int wave, int period, int cmp_) : c(c_), P(period), cmp(cmp_) {
    CHECK(c, BKContextInit(&ctx, channels, rate) == 0, "context");
    BKTime p = (BKTime)P * FU;
    CHECK(c, BKSetPtr(&ctx, BK_CLOCK_PERIOD, &p, sizeof p) == 0, "clock period");
    alloced = c.flip();
    if (alloced) CHECK(c, BKTrackAlloc(&t, wave) == 0, "track"); 
    else { t = raw.p; CHECK(c, BKTrackInit(t, wave) == 0, "track"); }
    CHECK(c, BKTrackAttach(t, &ctx) == 0, "attach");
    m.rate = rate; m.channels = channels; m.setWave(wave);
    buf.resize((size_t)channels * (P + 8));
    c.note("%d channels, %d Hz, %s, a tick each %d frames", channels, rate, attrName(wave), P);
  }
  ~TrackRig() { }
  // move the track to a new context
  void move(int channels, int rate) {
    bool leave = c.flip();
    c.note("tick %ld: %s and attached to another with %d channels, %d Hz", ticks, leave ? "detached from the context" : "context disposed", channels, rate);
    if (leave) BKTrackDetach(t);
    BKDispose(&ctx);
    CHECK(c, BKContextInit(&ctx, channels, rate) == 0, "context");
    BKTime p = (BKTime)P * FU;
    CHECK(c, BKSetPtr(&ctx, BK_CLOCK_PERIOD, &p, sizeof p) == 0, "clock period");
    CHECK(c, BKTrackAttach(t, &ctx) == 0, "attach");
    m.rate = rate; m.channels = channels;
    buf.resize((size_t)channels * (P + 8));
  }
  void dispose() {
    BKDispose(t);
    for (auto p : instrs) BKDispose(p);
    for (auto p : datas) BKDispose(p);
    BKDispose(&ctx);
  }
  int get(BKEnum a) { BKInt v = -12345; int r = BKGetAttr(t, a, &v); CHECK(c, r == 0, "reading %s gives %d", attrName(a), r); return v; }
  void set(BKEnum a, int v) { int r = BKSetAttr(t, a, v); CHECK(c, r == 0, "setting %s to %d gives %s", attrName(a), v, BKStatusGetName(r)); }
  int addInstr(const InstrSpec &in) {
    BKInstrument *p; CHECK(c, BKInstrumentAlloc(&p) == 0, "instrument");
    Player::setInstr(p, in);
    instrs.push_back(p); specs.push_back(in);
    return (int)instrs.size() - 1;
  }
  // requests on track and reference
  void note(int n) { c.note("tick %ld: note %d", ticks, n); set(BK_NOTE, n); m.setNote(n); }
  void volume(int v) { c.note("tick %ld: volume %d", ticks, v); set(BK_VOLUME, v); m.vol.set(std::min(std::max(v, 0), (int)BK_MAX_VOLUME)); }
  void master(int v) { c.note("tick %ld: master volume %d", ticks, v); set(BK_MASTER_VOLUME, v); m.master = std::min(std::max(v, 0), (int)BK_MAX_VOLUME); }
  void panning(int v) { c.note("tick %ld: panning %d", ticks, v); set(BK_PANNING, v); m.pan.set(std::min(std::max(v, -(int)BK_MAX_VOLUME), (int)BK_MAX_VOLUME)); }
  void pitch(int v) { c.note("tick %ld: pitch %d", ticks, v); set(BK_PITCH, v); m.pitch = v; }
  void duty(int v) { c.note("tick %ld: duty %d", ticks, v); set(BK_DUTY_CYCLE, v); m.duty = std::min(std::max(v, 1), 15); }
  void wave(int w) { c.note("tick %ld: waveform %s", ticks, attrName(w)); set(BK_WAVEFORM, w); m.setWave(w); }
  void tri(int v) { c.note("tick %ld: triangle ignores volume %d", ticks, v); set(BK_TRIANGLE_IGNORES_VOLUME, v); m.ignoreTri = v != 0; }
  void divider(BKEnum a, int v) {
    c.note("tick %ld: %s %d", ticks, attrName(a), v); set(a, v);
    RefDiv &d = a == BK_ARPEGGIO_DIVIDER ? m.arpDiv : a == BK_EFFECT_DIVIDER ? m.effDiv : m.insDiv; d.d = v; d.c = 0;
  }
  void arp(const std::vector<int> &a, bool null = false) {
    std::string s; for (int x : a) s += " " + std::to_string(x);
    c.note("tick %ld: arpeggio%s", ticks, null ? " NULL" : s.c_str());
    std::vector<BKInt> v; v.push_back((BKInt)a.size()); for (int x : a) v.push_back(x);
    BKInt *blk = (BKInt *)::malloc(v.size() * 4); memcpy(blk, v.data(), v.size() * 4);
    int r = BKSetPtr(t, BK_ARPEGGIO, null ? NULL : blk, null ? 0 : v.size() * 4);
    ::free(blk);
    CHECK(c, r == 0, "arpeggio gives %d", r);
    std::vector<int> k = a; if (k.size() > BK_MAX_ARPEGGIO) k.resize(BK_MAX_ARPEGGIO);
    m.setArp(null ? std::vector<int>() : k);
  }
  void effect(BKEnum e, int n, int how = 0) {
    c.note("tick %ld: %s %d ticks%s", ticks, attrName(e), n, how == 1 ? " (attribute)" : how == 2 ? " (NULL)" : "");
    int r;
    if (how == 1) r = BKSetAttr(t, e, n);
    else if (how == 2) { r = BKSetPtr(t, e, NULL, 0); n = 0; }
    else { BKInt v[3] = {n, 0, 0}; r = BKSetPtr(t, e, v, sizeof v); }
    CHECK(c, r == 0, "effect gives %d", r);
    m.setEffect(e, n);
  }
  // only from and to the disabled state, the reference does not follow changes on the way
  void swing(BKEnum e, int n, int delta) {
    c.note("tick %ld: %s %d ticks, depth %d", ticks, attrName(e), n, delta);
    BKInt v[3] = {n, delta, 0};
    int r = BKSetPtr(t, e, v, c.flip() ? 12 : 8); CHECK(c, r == 0, "effect gives %d", r);
    (e == BK_EFFECT_TREMOLO ? m.trem : m.vib).set(delta, std::min(n, 1 << 16)); // effects take up to 65536 ticks
  }
  void instrument(int i) {
    c.note("tick %ld: instrument %d", ticks, i);
    int r = BKSetPtr(t, BK_INSTRUMENT, i < 0 ? NULL : instrs[i], sizeof(void *)); CHECK(c, r == 0, "instrument gives %d", r);
    m.setInstr(i < 0 ? nullptr : &specs[i], i);
  }
  void checkNote(const char *when) {
    CHECK(c, get(BK_NOTE) == m.curNote, "tick %ld: %s: the track reports note %d, expected %d", ticks, when, get(BK_NOTE), m.curNote);
    CHECK(c, (get(BK_MUTE) != 0) == m.mute, "tick %ld: %s: the track is %s", ticks, when, m.mute ? "not muted although the note ended" : "muted although the note sounds");
  }
  void tick() {
    int n = BKContextGenerate(&ctx, buf.data(), P);
    CHECK(c, n == P, "tick %ld: generated %d frames", ticks, n);
    Expect e = m.tick();
    if (cmp & CMP_NOTE) checkNote("after the tick");
    bool s = get(BK_MUTE) == 0;
    if (cmp & CMP_MUTE) CHECK(c, s == e.sound, "tick %ld: the unit is %s", ticks, s ? "sounding although the note ended" : "muted although the note sounds");
    if (e.sound && s) {
      int p = wave_() == BK_SAMPLE ? get(BK_SAMPLE_PERIOD) : get(BK_PERIOD);
      if (cmp & CMP_PERIOD) CHECK(c, p >= e.lo && p <= e.hi, "tick %ld: period %d, expected %d..%d", ticks, p, e.lo, e.hi);
      if (cmp & CMP_VOLUME) for (int i = 0; i < m.channels; i++) {
        int v = get((BKEnum)(BK_VOLUME_0 + i)), lo = i == 1 ? e.vol1lo : e.vol0lo, hi = i == 1 ? e.vol1hi : e.vol0hi;
        CHECK(c, v >= lo && v <= hi, "tick %ld: volume of channel %d is %d, expected %d..%d", ticks, i, v, lo, hi);
      }
      if (cmp & CMP_DUTY) {
        int d = get(BK_DUTY_CYCLE);
        if (e.dutyExact) CHECK(c, d == e.duty, "tick %ld: duty cycle %d, expected %d", ticks, d, e.duty);
        else { double x = m.dutyReal(); CHECK(c, (d >= floor(x - 0.01) && d <= floor(x + 0.01)) || d == e.duty, "tick %ld: duty cycle %d, expected %.3f", ticks, d, x); }
      }
      audible = true;
    }
    ticks++;
  }
  int wave_() const { return m.wave; }
};
static inline SeqSpec genSequence(Case &c, int slot, int kind, int maxLen = 8, int maxSteps = 20) {
  SeqSpec q; q.kind = kind;
  int n = 1 + (int)c.draw((uint32_t)(c.chance(1, 40) ? 300 : maxLen));   // rarely many values
  bool longSteps = kind == 2 && c.chance(1, 40), far = c.chance(1, 20);   // rarely very slow phases, tones far away, panning beyond the sides
  for (int i = 0; i < n; i++) {
    int v;
    switch (slot) {
      case BK_SEQUENCE_VOLUME: v = (int)c.edgy(0, BK_MAX_VOLUME, {0, BK_MAX_VOLUME}); break;
      case BK_SEQUENCE_PANNING: v = far ? (int)c.range(-200000, 200000) : (int)c.edgy(-BK_MAX_VOLUME, BK_MAX_VOLUME, {0, -BK_MAX_VOLUME, BK_MAX_VOLUME}); break;
      case BK_SEQUENCE_PITCH: v = (int)(far ? c.range(-120, 120) : c.range(-12, 12)) * FU + (c.chance(1, 3) ? (int)c.range(0, FU - 1) : 0); break;
      default: v = (int)c.range(1, 15); break;
    }
    q.values.push_back(v);
    q.steps.push_back(c.chance(1, 4) ? 0 : longSteps ? (int)c.logRange(1, 100000) : (int)c.range(1, maxSteps));
  }
  q.off = (int)c.range(0, n);
  q.len = (int)c.range(0, n - q.off);
  if (kind == 2 && q.off < n) {
    // a sustain range which takes no time is refused
    int s = 0; for (int i = q.off; i < q.off + q.len; i++) s += q.steps[i];
    if (!s) { if (!q.len) q.len = 1; q.steps[q.off] = 1 + c.draw(6); }
  }
  return q;
}
static inline std::string seqStr(const SeqSpec &q) {
  std::string d = q.kind == 1 ? "sequence" : "envelope";
  for (size_t j = 0; j < q.values.size(); j++) d += " " + (q.kind == 2 ? std::to_string(q.steps[j]) + ":" : std::string()) + std::to_string(q.values[j]);
  return d + " sustain " + std::to_string(q.off) + "+" + std::to_string(q.len);
}
#endif
