#include "common.h"
// C29: tracks sharing an instrument behave as with a private one; copies are independent; changes reach all users.
// Oracle: a second context in which every track has instruments of its own, made from the same definition and changed in
// the same way, or replaced by newly made ones while silent.
struct Def { InstrSpec s; };
struct Ins { bool live = false; Def def; BKInstrument *p = nullptr; bool alloc = false; std::vector<BKInstrument *> own; };
static int64_t all(int64_t n) { return n; }
static SeqSpec genSlot(Case &c, int slot) {
  SeqSpec q = genSeq(c, slot);
  if (c.chance(1, 12)) q.kind = 0;
  for (auto &s : q.steps) if (c.chance(1, 6)) s = 0;
  if (q.kind == 2 && q.off < (int)q.steps.size()) for (int i = q.off; i < q.off + q.len && i < (int)q.steps.size(); i++) q.steps[i] = std::max(1, q.steps[i]);
  return q;
}
static std::string seqStr(const SeqSpec &q) {
  std::string d = q.kind == 0 ? "none" : q.kind == 1 ? "sequence" : "envelope";
  if (q.kind) for (size_t j = 0; j < q.values.size(); j++) d += (j ? "," : " ") + (q.kind == 2 ? std::to_string(q.steps[j]) + ":" : std::string()) + std::to_string(q.values[j]);
  return d + " sustain " + std::to_string(q.off) + "+" + std::to_string(q.len);
}
static int setSlot(BKInstrument *p, int k, const SeqSpec &q) {
  if (q.kind == 0) return BKInstrumentSetSequence(p, k, nullptr, 0, 0, 0);
  if (q.kind == 1) return BKInstrumentSetSequence(p, k, q.values.data(), (BKUInt)q.values.size(), q.off, q.len);
  std::vector<BKSequencePhase> ph;
  for (size_t i = 0; i < q.values.size(); i++) { BKSequencePhase x; x.steps = q.steps[i]; x.value = q.values[i]; ph.push_back(x); }
  return BKInstrumentSetEnvelope(p, k, ph.data(), (BKUInt)ph.size(), q.off, q.len);
}
static int setADSR(BKInstrument *p, const InstrSpec &s) { return BKInstrumentSetEnvelopeADSR(p, s.a, s.d, s.s, s.r); }
static BKInstrument *make(Case &c, const Def &d) {
  BKInstrument *p; CHECK(c, BKInstrumentAlloc(&p) == 0, "instrument");
  for (int k = 0; k < 4; k++) if (d.s.seq[k].kind) CHECK(c, setSlot(p, k, d.s.seq[k]) == 0, "sequence refused");
  if (d.s.adsr) CHECK(c, setADSR(p, d.s) == 0, "ADSR refused");
  return p;
}
static void test(Case &c) {
  struct Track { BKTrack *a, *b; int ins = -1; bool sounding = false; };
  struct W { BKContext *A, *B; std::vector<Track> t; std::vector<Ins> ins; Scene sc; };
  W *w = new W;
  bool rebuild = c.flip();
  int nch = (int)c.range(1, 2);
  CHECK(c, BKContextAlloc(&w->A, nch, 44100) == 0 && BKContextAlloc(&w->B, nch, 44100) == 0, "context");
  int tick = (int)c.range(60, 400); { BKTime t = (BKTime)tick * FU; BKSetPtr(w->A, BK_CLOCK_PERIOD, &t, sizeof t); BKSetPtr(w->B, BK_CLOCK_PERIOD, &t, sizeof t); c.note("tick of %lld frames%s", (long long)(t / FU), rebuild ? "; replaced instead of changed" : ""); }
  w->t.resize((size_t)c.range(2, 5)); w->ins.resize((size_t)c.range(1, 3)); w->sc.channels = nch; w->sc.sources.resize(w->t.size());
  for (size_t i = 0; i < w->t.size(); i++) {
    Track &t = w->t[i]; w->sc.sources[i].track = true;
    for (BKTrack **p : {&t.a, &t.b}) { CHECK(c, BKTrackAlloc(p, BK_SQUARE) == 0 && BKTrackAttach(*p, p == &t.a ? w->A : w->B) == 0, "track"); BKSetAttr(*p, BK_MASTER_VOLUME, 24000 / (int)w->t.size()); if (c.chance(1, 100)) {} }
  }
  SceneOpts o; o.samples = false;
  bool settle = false; // replaced instruments reach the unit at the next tick only
  Frames fa, fb; long shared = 0, changed = 0, copies = 0, audible = 0;
  auto create = [&](int k) {
    Ins &x = w->ins[k]; int from = c.chance(1, 2) ? (int)c.draw((uint32_t)w->ins.size()) : -1;
    x.live = true; x.own.assign(w->t.size(), nullptr);
    if (from >= 0 && from != k && w->ins[from].live) {
      x.alloc = false; x.p = (BKInstrument *)malloc(sizeof(BKInstrument)); vp_fill(x.p, sizeof *x.p);
      c.note("instrument %d: copy of %d", k, from); copies++;
      CHECK(c, BKInstrumentInitCopy(x.p, w->ins[from].p) == 0, "copy");
      x.def = w->ins[from].def;
    } else {
      x.def = Def(); x.alloc = true;
      for (int s = 0; s < 4; s++) if (c.flip()) x.def.s.seq[s] = genSlot(c, s);
      if (c.chance(1, 4)) { x.def.s.adsr = true; x.def.s.a = (int)c.range(0, 12); x.def.s.d = (int)c.range(0, 12); x.def.s.s = (int)c.range(0, 32767); x.def.s.r = (int)c.range(0, 12); }
      x.p = make(c, x.def);
      std::string d; for (int s = 0; s < 4; s++) if (x.def.s.seq[s].kind) d += " slot " + std::to_string(s) + " " + seqStr(x.def.s.seq[s]) + ";";
      c.note("instrument %d:%s%s", k, d.c_str(), x.def.s.adsr ? " ADSR" : "");
    }
    for (auto &p : x.own) p = make(c, x.def);
    // content read back agrees
    for (int s = 0; s < 4; s++) {
      BKSequence const *a = BKInstrumentGetSequence(x.p, s), *b = BKInstrumentGetSequence(x.own[0], s);
      CHECK(c, !a == !b, "sequence %d of instrument %d is %s", s, k, a ? "set" : "not set");
      if (a) CHECK(c, a != b && a->length == b->length && a->sustainOffset == b->sustainOffset && a->sustainLength == b->sustainLength, "sequence %d of instrument %d differs from its definition", s, k);
    }
  };
  // every own instrument follows a change of the shared one
  auto follow = [&](int k, const std::function<int(BKInstrument *)> &change, int r) {
    Ins &x = w->ins[k];
    for (size_t i = 0; i < w->t.size(); i++) {
      Track &t = w->t[i];
      if (!rebuild) { int q = change(x.own[i]); CHECK(c, q == r, "change returned %d, for an own instrument %d", r, q); continue; }
      BKInstrument *fresh = make(c, x.def);
      if (t.ins == k) {
        // a change ends the sounding note
        CHECK(c, BKSetAttr(t.b, BK_NOTE, BK_NOTE_MUTE) == 0 && BKSetPtr(t.b, BK_INSTRUMENT, fresh, sizeof(void *)) == 0, "replace");
        BKSetAttr(t.a, BK_NOTE, BK_NOTE_MUTE);
        t.sounding = false; settle = true;
      }
      BKDispose(x.own[i]); x.own[i] = fresh;
    }
  };
  int steps = (int)c.range(8, c.thorough ? 70 : 45);
  for (size_t k = 0; k < w->ins.size(); k++) create((int)k);
  for (auto &t : w->t) if (c.chance(4, 5)) { int k = (int)c.draw((uint32_t)w->ins.size()); t.ins = k; BKSetPtr(t.a, BK_INSTRUMENT, w->ins[k].p, sizeof(void *)); BKSetPtr(t.b, BK_INSTRUMENT, w->ins[k].own[&t - &w->t[0]], sizeof(void *)); c.note("track %d: instrument %d", (int)(&t - &w->t[0]), k); }
  for (int st = 0; st < steps; st++) {
    int i = (int)c.draw((uint32_t)w->t.size()), k = (int)c.draw((uint32_t)w->ins.size());
    Track &t = w->t[i]; Ins &x = w->ins[k];
    int act = settle ? 0 : c.weighted({10, 10, 2, 4, 1, 1, 3});
    switch (act) {
      case 0: {
        int n = settle ? 2 * tick : c.chance(1, 4) ? (int)c.range(700, 1500) : (int)c.logRange(1, 700); c.note("play %d", n); settle = false;
        fa.assign((size_t)n * nch, 0); fb = fa;
        CHECK(c, BKContextGenerate(w->A, fa.data(), n) == n && BKContextGenerate(w->B, fb.data(), n) == n, "frames");
        size_t d = firstDiff(fa, fb);
        CHECK(c, d == fa.size(), "sample %zu with a shared instrument: %d, with own ones %d", d, fa[d], fb[d]);
        for (size_t q = 0; q < w->t.size(); q++) for (BKEnum at : {(BKEnum)BK_NOTE, (BKEnum)BK_MUTE, (BKEnum)BK_DUTY_CYCLE, (BKEnum)BK_PERIOD, (BKEnum)BK_VOLUME_0}) {
          BKInt a = 0, b = 0; BKTrack *ta = w->t[q].a, *tb = w->t[q].b;
          if (at == BK_NOTE) { BKGetAttr(ta, at, &a); BKGetAttr(tb, at, &b); } else { BKUnitGetAttr((BKUnit *)ta, at, &a); BKUnitGetAttr((BKUnit *)tb, at, &b); }
          if (at != BK_NOTE && at != BK_MUTE) { BKInt m = 0; BKUnitGetAttr((BKUnit *)tb, BK_MUTE, &m); if (m || n < 700) continue; }
          CHECK(c, a == b, "track %zu: %s %d, with an own instrument %d", q, attrName(at), a, b);
        }
        if (energy(fa) > 4) audible++;
        break;
      }
      case 1: {
        int v = c.weighted({6, 3, 1}); v = v == 0 ? noteVal(c) : v == 1 ? BK_NOTE_RELEASE : BK_NOTE_MUTE;
        c.note("track %d: note %d", i, v); BKSetAttr(t.a, BK_NOTE, v); BKSetAttr(t.b, BK_NOTE, v); t.sounding = v >= 0 || (v == BK_NOTE_RELEASE && t.sounding);
        int users = 0; for (auto &y : w->t) users += y.ins >= 0 && y.ins == t.ins && y.sounding;
        if (users > 1) shared++;
        break;
      }
      case 2: {
        bool none = c.chance(1, 5); if (!none && !x.live) break;
        c.note("track %d: instrument %d", i, none ? -1 : k);
        BKSetPtr(t.a, BK_INSTRUMENT, none ? nullptr : x.p, sizeof(void *)); BKSetPtr(t.b, BK_INSTRUMENT, none ? nullptr : x.own[i], sizeof(void *)); t.ins = none ? -1 : k; break;
      }
      case 3: {
        if (!x.live) { create(k); break; }
        bool adsr = c.chance(1, 5); int s = (int)c.draw(4); bool bad = !adsr && c.chance(1, 8);
        bool used = false; for (auto &y : w->t) used |= y.ins == k && y.sounding;
        if (bad) {
          BKSequencePhase ph[2] = {{1, 5}, {0, 7}}; BKInt v[1] = {3};
          c.note("instrument %d: refused changes", k);
          // sustain over phases without length; unknown slot
          CHECK(c, BKInstrumentSetEnvelope(x.p, s, ph, 2, 1, 1) != 0 && BKInstrumentSetSequence(x.p, 4 + s, v, 1, 0, 0) != 0, "invalid change accepted");
          break;
        }
        int r;
        if (adsr) {
          InstrSpec ns; ns.a = (int)c.range(0, 12); ns.d = (int)c.range(0, 12); ns.s = (int)c.range(0, 32767); ns.r = (int)c.range(0, 12);
          c.note("instrument %d: ADSR %d %d %d %d", k, ns.a, ns.d, ns.s, ns.r);
          x.def.s.adsr = true; x.def.s.a = ns.a; x.def.s.d = ns.d; x.def.s.s = ns.s; x.def.s.r = ns.r; x.def.s.seq[0].kind = 0;
          r = setADSR(x.p, ns); follow(k, [&](BKInstrument *p) { return setADSR(p, ns); }, r);
        } else {
          SeqSpec q = genSlot(c, s);
          c.note("instrument %d: slot %d %s", k, s, seqStr(q).c_str());
          if (s == BK_SEQUENCE_VOLUME) x.def.s.adsr = false;
          x.def.s.seq[s] = q;
          r = setSlot(x.p, s, q); follow(k, [&](BKInstrument *p) { return setSlot(p, s, q); }, r);
        }
        CHECK(c, r == 0, "change returned %d", r);
        if (used) changed++;
        break;
      }
      case 4: {
        if (!x.live) break;
        c.note("instrument %d disposed", k);
        BKDispose(x.p); if (!x.alloc) free(x.p);
        x.p = nullptr; x.live = false; for (auto p : x.own) BKDispose(p);
        x.own.clear(); for (auto &y : w->t) if (y.ins == k) y.ins = -1;
        break;
      }
      case 5: {
        if (!x.live) break;
        c.note("instrument %d detached", k); BKInstrumentDetach(x.p); for (auto p : x.own) BKInstrumentDetach(p);
        for (auto &y : w->t) if (y.ins == k) y.ins = -1;
        break;
      }
      default: {
        Op op = genOp(c, w->sc, i, o, 8000);
        if (op.kind == OP_INSTR || op.kind == OP_DATA) break;
        if (op.kind == OP_ATTR && op.attr == BK_NOTE) { t.sounding = op.v[0] >= 0; }
        if (op.kind == OP_ATTR && op.attr == BK_MASTER_VOLUME) break;
        c.note("%s", opStr(op).c_str());
        for (BKTrack *p : {t.a, t.b}) {
          if (op.kind == OP_ATTR) BKSetAttr(p, op.attr, op.v[0]);
          else if (op.kind == OP_EFFECT) { std::vector<BKInt> v(op.v.begin(), op.v.end()); BKSetPtr(p, op.attr, v.data(), v.size() * sizeof(BKInt)); }
          else if (op.kind == OP_ARP) { std::vector<BKInt> a; a.push_back((BKInt)op.v.size()); for (int q : op.v) a.push_back(q); BKSetPtr(p, BK_ARPEGGIO, a.data(), a.size() * sizeof(BKInt)); }
        }
      }
    }
  }
  if (changed) c.label("changed while sounding");
  if (copies) c.label("copied");
  if (shared && audible) c.nontrivial();
  // the shared instrument goes first or last
  bool first = c.flip();
  auto kill = [&] { for (auto &x : w->ins) if (x.live) { BKDispose(x.p); if (!x.alloc) free(x.p); for (auto p : x.own) BKDispose(p); } };
  if (first) kill();
  for (auto &t : w->t) { BKDispose(t.a); BKDispose(t.b); }
  if (!first) kill();
  BKDispose(w->A); BKDispose(w->B); delete w;
}
std::vector<vp::Property> vp_properties() {
  return {{"C29", "up to 5 tracks playing, releasing and muting notes with up to 3 shared instruments which are changed, copied, disposed and detached in between, against tracks with instruments of their own; non-trivial: two tracks sounded with one instrument at the same time", 137000, 1370000, test, {}}};
}
VP_MAIN
