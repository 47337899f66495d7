#include "common.h"
#include "wave.h"
// C25: a failed allocation is reported, leaks nothing and changes nothing; the call succeeds once memory is available.
// Fault enumeration: every allocating call of a generated history is first made with its 1st, 2nd, ... allocation failing
// (that one only, and that one and all later ones) until it succeeds. Oracle: a second world that makes the same calls
// without any failure has the same audio, attributes and results, and the failed calls leave the allocation balance alone.
namespace {
struct Side { BKContext *ctx = nullptr; std::vector<BKTrack *> t; std::vector<BKInstrument *> in; std::vector<char> inAlloc; std::vector<BKData *> d; std::vector<char> dAlloc; std::vector<BKClock *> ck; std::vector<BKDivider *> dv; std::vector<Frames *> lent; long ticks = 0; };
BKEnum onTick(BKCallbackInfo *, void *u) { Side *s = (Side *)u; s->ticks++; for (auto t : s->t) if (t) BKSetAttr(t, BK_PANNING, s->ticks & 1 ? 4000 : -4000); return 0; }
}
static Bytes waveBytes(Case &c, const Frames &f) { Bytes b; putId(b, "RIFF"); put32(b, 36 + (uint32_t)f.size() * 2); putId(b, "WAVE"); putId(b, "fmt "); put32(b, 16); put16(b, 1); put16(b, 1); put32(b, 44100); put32(b, 88200); put16(b, 2); put16(b, 16); putId(b, "data"); put32(b, (uint32_t)f.size() * 2); for (auto v : f) put16(b, (uint16_t)v); return b; }
static void test(Case &c) {
  struct W { Side a, b; std::vector<int> ins, smp; };   // per track: instrument, data (or -1)
  W *w = new W; Side &A = w->a, &B = w->b;
  int nch = (int)c.range(1, 3), nt = (int)c.range(1, 3), ni = (int)c.range(1, 2), nd = (int)c.range(1, 3);
  long faults = 0, inUse = 0, audible = 0; Frames fa, fb;
  for (Side *s : {&A, &B}) { s->t.assign(nt, nullptr); s->in.assign(ni, nullptr); s->inAlloc.assign(ni, 0); s->d.assign(nd, nullptr); s->dAlloc.assign(nd, 0); s->ck.assign(1, nullptr); s->dv.assign(2, nullptr); }
  w->ins.assign(nt, -1); w->smp.assign(nt, -1);
  std::vector<int> sounding(nt, 0);
  auto play = [&](int n) {
    c.note("play %d", n);
    fa.assign((size_t)n * nch, 0); fb = fa;
    int ga = BKContextGenerate(A.ctx, fa.data(), n), gb = BKContextGenerate(B.ctx, fb.data(), n);
    CHECK(c, ga == gb, "%d frames after failed calls, %d without", ga, gb);
    size_t d = firstDiff(fa, fb);
    CHECK(c, d == fa.size(), "sample %zu after failed calls: %d, without: %d", d, fa[d], fb[d]);
    if (energy(fa) > 4) audible++;
    CHECK(c, A.ticks == B.ticks, "%ld ticks after failed calls, %ld without", A.ticks, B.ticks);
    for (int i = 0; i < nt; i++) if (B.t[i]) for (BKEnum at : {(BKEnum)BK_NOTE, (BKEnum)BK_WAVEFORM, (BKEnum)BK_PITCH, (BKEnum)BK_NUM_PHASES}) { BKInt x = 0, y = 0; int p = BKGetAttr(A.t[i], at, &x), q = BKGetAttr(B.t[i], at, &y); CHECK(c, p == q && x == y, "track %d: %s %d after failed calls, %d without", i, attrName(at), x, y); }
    for (int i = 0; i < nd; i++) if (B.d[i]) for (BKEnum at : {(BKEnum)BK_NUM_FRAMES, (BKEnum)BK_NUM_CHANNELS, (BKEnum)BK_SAMPLE_PITCH}) { BKInt x = -1, y = -1; BKGetAttr(A.d[i], at, &x); BKGetAttr(B.d[i], at, &y); CHECK(c, x == y, "data %d: %s %d after failed calls, %d without", i, attrName(at), x, y); }
    for (int i = 0; i < ni; i++) if (B.in[i]) for (int s = 0; s < 4; s++) { BKSequence const *x = BKInstrumentGetSequence(A.in[i], s), *y = BKInstrumentGetSequence(B.in[i], s); CHECK(c, !x == !y && (!x || (x->length == y->length && x->sustainOffset == y->sustainOffset)), "instrument %d: sequence %d differs after failed calls", i, s); }
  };
  // every allocation of the call fails in turn; cleanup runs after a failed call
  auto attempt = [&](const char *name, bool used, const std::function<int(Side &)> &fn, const std::function<void(Side &)> &cleanup) {
    int ra = 0;
    for (long k = 0;; k++) {
      CHECK(c, k < 100, "%s: still allocating", name);
      bool done = false;
      for (int from = 0; from < 2 && !done; from++) {
        long live = vp_live, bytes = vp_live_bytes;
        vp_arm(from ? -1 : k, from ? k : -1);
        ra = fn(A);
        long failed = vp_failed; vp_arm(-1, -1);
        if (!failed) { done = true; break; }
        faults++; if (used) inUse++;
        c.label(name);
        CHECK(c, ra < 0, "%s: allocation %ld failed, but it returned %d", name, k, ra);
        cleanup(A);
        CHECK(c, vp_live == live && vp_live_bytes == bytes, "%s: allocation %ld failed and %ld blocks with %ld bytes more are in use", name, k, vp_live - live, vp_live_bytes - bytes);
        if (B.ctx && c.chance(1, 6)) play((int)c.logRange(1, 500));
      }
      if (done) break;
    }
    int rb = fn(B);
    CHECK(c, ra == rb, "%s returned %d after failed attempts, %d without", name, ra, rb);
    if (rb < 0) { cleanup(A); cleanup(B); }
    return rb;
  };
  auto none = [](Side &) {};
  // context
  if (c.flip()) attempt("BKContextAlloc", false, [&](Side &s) { s.ctx = (BKContext *)&c; int r = BKContextAlloc(&s.ctx, nch, 44100); CHECK(c, r == 0 || s.ctx == nullptr, "failed BKContextAlloc left a pointer"); return r; }, none);
  else {
    // in-place: its memory is not released with the object
    A.ctx = (BKContext *)malloc(sizeof(BKContext)); BKContext *bp = (BKContext *)malloc(sizeof(BKContext)), *ap = A.ctx; B.ctx = nullptr;
    attempt("BKContextInit", false, [&](Side &s) { BKContext *p = &s == &A ? ap : bp; vp_fill(p, sizeof *p); int r = BKContextInit(p, nch, 44100); if (r == 0) s.ctx = p; return r; }, [&](Side &s) { BKDispose(&s == &A ? ap : bp); });
  }
  bool inPlaceCtx = !(A.ctx->object.flags & BKObjectFlagAllocated);
  if (c.flip()) { BKTime t = (BKTime)c.range(40, 300) * FU; BKSetPtr(A.ctx, BK_CLOCK_PERIOD, &t, sizeof t); BKSetPtr(B.ctx, BK_CLOCK_PERIOD, &t, sizeof t); c.note("tick of %lld frames", (long long)(t / FU)); }
  auto newTrack = [&](int i) {
    BKEnum wave = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_TRIANGLE, (BKEnum)BK_SAWTOOTH});
    c.note("track %d: new", i);
    attempt("BKTrackAlloc", false, [&](Side &s) { s.t[i] = (BKTrack *)&c; int r = BKTrackAlloc(&s.t[i], wave); CHECK(c, r == 0 || s.t[i] == nullptr, "failed BKTrackAlloc left a pointer"); return r; }, none);
    for (Side *s : {&A, &B}) { CHECK(c, BKTrackAttach(s->t[i], s->ctx) == 0, "attach"); BKSetAttr(s->t[i], BK_MASTER_VOLUME, 24000 / nt); }
    w->ins[i] = w->smp[i] = -1; sounding[i] = 0;
  };
  auto newData = [&](int i) {
    int from = c.flip() ? (int)c.draw(nd) : -1;
    if (from == i || (from >= 0 && !B.d[from])) from = -1;
    if (from >= 0) {
      c.note("data %d: copy of %d", i, from);
      BKData *pa = (BKData *)malloc(sizeof(BKData)), *pb = (BKData *)malloc(sizeof(BKData)); bool disp = c.flip();
      int r = attempt("BKDataInitCopy", false, [&](Side &s) { BKData *p = &s == &A ? pa : pb; vp_fill(p, sizeof *p); return BKDataInitCopy(p, s.d[from]); }, [&](Side &s) { if (disp) BKDispose(&s == &A ? pa : pb); });
      CHECK(c, r == 0, "copy returned %d", r);
      A.d[i] = pa; B.d[i] = pb; A.dAlloc[i] = B.dAlloc[i] = 0;
    } else {
      c.note("data %d: new", i);
      attempt("BKDataAlloc", false, [&](Side &s) { s.d[i] = (BKData *)&c; int r = BKDataAlloc(&s.d[i]); CHECK(c, r == 0 || s.d[i] == nullptr, "failed BKDataAlloc left a pointer"); return r; }, none);
      A.dAlloc[i] = B.dAlloc[i] = 1;
    }
  };
  auto editData = [&](int i) {
    bool used = false; for (int t = 0; t < nt; t++) used |= w->smp[t] == i && sounding[t];
    DataSpec ds = genData(c, 1, 200); uint32_t seed = c.draw(1000);
    switch (c.draw(8)) {
      case 0: case 1: { c.note("data %d: %zu frames copied", i, ds.frames.size()); attempt("BKDataSetFrames", used, [&](Side &s) { return BKDataSetFrames(s.d[i], ds.frames.data(), (BKUInt)ds.frames.size(), 1, 1); }, none); break; }
      case 2: {
        c.note("data %d: %zu frames lent", i, ds.frames.size());
        for (Side *s : {&A, &B}) { Frames *f = new Frames(ds.frames); s->lent.push_back(f); CHECK(c, BKDataSetFrames(s->d[i], f->data(), (BKUInt)f->size(), 1, 0) == 0, "lending"); }
        break;
      }
      case 3: {
        BKEnum bits = c.pick({(BKEnum)BK_1_BIT_UNSIGNED, (BKEnum)BK_2_BIT_UNSIGNED, (BKEnum)BK_4_BIT_UNSIGNED, (BKEnum)BK_8_BIT_SIGNED, (BKEnum)BK_16_BIT_SIGNED});
        Bytes *b = new Bytes; int n = (int)c.range(4, 80); for (int k = 0; k < n; k++) b->push_back((uint8_t)c.draw(256)); if (n & 1) b->push_back(0);
        c.note("data %d: %zu raw bytes", i, b->size());
        attempt("BKDataSetData", used, [&](Side &s) { return BKDataSetData(s.d[i], b->data(), (BKUInt)b->size(), 1, bits); }, none);
        delete b; break;
      }
      case 4: {
        Bytes b; int n = 2 * (int)c.range(2, 40); for (int k = 0; k < n; k++) b.push_back((uint8_t)c.draw(256));
        FILE *f = memFile(b); CHECK(c, f, "memfd");
        c.note("data %d: raw file of %d bytes", i, n);
        attempt("BKDataLoadRaw", used, [&](Side &s) { rewind(f); return BKDataLoadRaw(s.d[i], f, 1, BK_16_BIT_SIGNED); }, none);
        fclose(f); break;
      }
      case 5: {
        FILE *f = memFile(waveBytes(c, ds.frames)); CHECK(c, f, "memfd");
        c.note("data %d: WAVE file of %zu frames", i, ds.frames.size());
        attempt("BKDataLoadWAVE", used, [&](Side &s) { rewind(f); return BKDataLoadWAVE(s.d[i], f); }, none);
        fclose(f); break;
      }
      case 6: c.note("data %d: normalised", i); attempt("BKDataNormalize", used, [&](Side &s) { return BKDataNormalize(s.d[i]); }, none); break;
      default: {
        BKDataConvertInfo info; memset(&info, 0, sizeof info); info.targetNumBits = (BKUInt)c.range(1, 15);
        c.note("data %d: converted to %u bits", i, info.targetNumBits);
        attempt("BKDataConvert", used, [&](Side &s) { srand(seed); BKDataConvertInfo x = info; return BKDataConvert(s.d[i], &x); }, none);
      }
    }
  };
  auto editInstr = [&](int i) {
    bool used = false; for (int t = 0; t < nt; t++) used |= w->ins[t] == i && sounding[t];
    int s4 = (int)c.draw(4);
    if (c.chance(1, 4)) {
      int a = (int)c.range(0, 12), d = (int)c.range(0, 12), su = (int)c.range(0, 32767), r = (int)c.range(0, 12);
      c.note("instrument %d: ADSR %d %d %d %d", i, a, d, su, r);
      attempt("BKInstrumentSetEnvelopeADSR", used, [&](Side &s) { return BKInstrumentSetEnvelopeADSR(s.in[i], a, d, su, r); }, none);
    } else {
      SeqSpec q = genSeq(c, s4);
      if (q.kind == 1) { c.note("instrument %d: sequence %d of %zu", i, s4, q.values.size()); attempt("BKInstrumentSetSequence", used, [&](Side &s) { return BKInstrumentSetSequence(s.in[i], s4, q.values.data(), (BKUInt)q.values.size(), q.off, q.len); }, none); }
      else {
        std::vector<BKSequencePhase> ph; for (size_t k = 0; k < q.values.size(); k++) { BKSequencePhase x; x.steps = q.steps[k]; x.value = q.values[k]; ph.push_back(x); }
        c.note("instrument %d: envelope %d of %zu", i, s4, q.values.size());
        attempt("BKInstrumentSetEnvelope", used, [&](Side &s) { return BKInstrumentSetEnvelope(s.in[i], s4, ph.data(), (BKUInt)ph.size(), q.off, q.len); }, none);
      }
    }
  };
  auto newInstr = [&](int i) {
    int from = c.flip() ? (int)c.draw(ni) : -1;
    if (from == i || (from >= 0 && !B.in[from])) from = -1;
    if (from >= 0) {
      c.note("instrument %d: copy of %d", i, from);
      BKInstrument *pa = (BKInstrument *)malloc(sizeof(BKInstrument)), *pb = (BKInstrument *)malloc(sizeof(BKInstrument)); bool disp = c.flip();
      int r = attempt("BKInstrumentInitCopy", false, [&](Side &s) { BKInstrument *p = &s == &A ? pa : pb; vp_fill(p, sizeof *p); return BKInstrumentInitCopy(p, s.in[from]); }, [&](Side &s) { if (disp) BKDispose(&s == &A ? pa : pb); });
      CHECK(c, r == 0, "copy returned %d", r);
      A.in[i] = pa; B.in[i] = pb; A.inAlloc[i] = B.inAlloc[i] = 0;
    } else {
      c.note("instrument %d: new", i);
      attempt("BKInstrumentAlloc", false, [&](Side &s) { s.in[i] = (BKInstrument *)&c; int r = BKInstrumentAlloc(&s.in[i]); CHECK(c, r == 0 || s.in[i] == nullptr, "failed BKInstrumentAlloc left a pointer"); return r; }, none);
      A.inAlloc[i] = B.inAlloc[i] = 1;
      for (int k = 0, n = (int)c.range(1, 3); k < n; k++) editInstr(i);
    }
  };
  auto assign = [&](int t) {
    if (!B.t[t]) return;
    if (c.flip()) { int i = (int)c.draw(ni); if (!B.in[i]) return; c.note("track %d: instrument %d", t, i); for (Side *s : {&A, &B}) BKSetPtr(s->t[t], BK_INSTRUMENT, s->in[i], sizeof(void *)); w->ins[t] = i; }
    else {
      int i = (int)c.draw(nd); if (!B.d[i]) return;
      BKEnum at = c.flip() ? (BKEnum)BK_SAMPLE : (BKEnum)BK_WAVEFORM;
      c.note("track %d: %s data %d", t, at == BK_SAMPLE ? "sample" : "waveform", i);
      int r[2]; for (int q = 0; q < 2; q++) { Side &s = q ? B : A; r[q] = BKSetPtr(s.t[t], at, s.d[i], sizeof(void *)); if (at == BK_SAMPLE) BKSetAttr(s.t[t], BK_SAMPLE_REPEAT, BK_REPEAT); }
      CHECK(c, r[0] == r[1], "setting data returned %d and %d", r[0], r[1]);
      w->smp[t] = i;
    }
  };
  auto dropData = [&](int i) { c.note("data %d disposed", i); for (Side *s : {&A, &B}) { BKDispose(s->d[i]); if (!s->dAlloc[i]) free(s->d[i]); s->d[i] = nullptr; } for (auto &x : w->smp) if (x == i) x = -1; };
  auto dropInstr = [&](int i) { c.note("instrument %d disposed", i); for (Side *s : {&A, &B}) { BKDispose(s->in[i]); if (!s->inAlloc[i]) free(s->in[i]); s->in[i] = nullptr; } for (auto &x : w->ins) if (x == i) x = -1; };
  int steps = (int)c.range(6, c.thorough ? 60 : 35);
  newTrack(0);
  for (int st = 0; st < steps; st++) {
    int t = (int)c.draw(nt), i;
    switch (c.weighted({8, 8, 4, 8, 3, 6, 6, 1, 1, 3})) {
      case 0: play((int)c.logRange(1, 900)); break;
      case 1: if (B.t[t]) { int v = c.weighted({8, 2, 1}); v = v == 0 ? (int)c.range(12, 70) * FU : v == 1 ? BK_NOTE_RELEASE : BK_NOTE_MUTE; c.note("track %d: note %d", t, v); for (Side *s : {&A, &B}) BKSetAttr(s->t[t], BK_NOTE, v); sounding[t] = v >= 0; } break;
      case 2: i = (int)c.draw(nd); if (!B.d[i]) { newData(i); if (c.chance(4, 5)) editData(i); } else editData(i); break;
      case 3: i = (int)c.draw(nd); if (B.d[i]) editData(i); else { newData(i); editData(i); } break;
      case 4: i = (int)c.draw(ni); if (!B.in[i]) newInstr(i); else editInstr(i); break;
      case 5: i = (int)c.draw(ni); if (B.in[i]) editInstr(i); break;
      case 6: assign(t); break;
      case 7: if (c.flip()) { i = (int)c.draw(nd); if (B.d[i]) dropData(i); } else { i = (int)c.draw(ni); if (B.in[i]) dropInstr(i); } break;
      case 8: if (!B.t[t]) newTrack(t); else if (t > 0 && c.chance(1, 3)) { c.note("track %d disposed", t); for (Side *s : {&A, &B}) { BKDispose(s->t[t]); s->t[t] = nullptr; } w->ins[t] = w->smp[t] = -1; sounding[t] = 0; } break;
      default: {
        int k = (int)c.draw(3);
        if (k == 0) {
          if (B.ck[0]) { c.note("clock disposed"); for (Side *s : {&A, &B}) { BKDispose(s->ck[0]); s->ck[0] = nullptr; } break; }
          BKTime p = mkTime((double)c.range(30, 300)); c.note("clock of %g frames", p / (double)FU); bool cb = c.flip();
          attempt("BKClockAlloc", false, [&](Side &s) { s.ck[0] = (BKClock *)&c; BKCallback x; x.func = onTick; x.userInfo = &s; int r = BKClockAlloc(&s.ck[0], p, cb ? &x : nullptr); CHECK(c, r == 0 || s.ck[0] == nullptr, "failed BKClockAlloc left a pointer"); return r; }, none);
          for (Side *s : {&A, &B}) CHECK(c, BKClockAttach(s->ck[0], s->ctx, nullptr) == 0, "attach");
        } else if (k == 1) {
          int q = (int)c.draw(2);
          if (B.dv[q]) { c.note("divider disposed"); for (Side *s : {&A, &B}) { BKDispose(s->dv[q]); s->dv[q] = nullptr; } break; }
          BKUInt n = (BKUInt)c.range(1, 4); c.note("divider of %u", n);
          attempt("BKDividerAlloc", false, [&](Side &s) { s.dv[q] = (BKDivider *)&c; BKCallback x; x.func = onTick; x.userInfo = &s; int r = BKDividerAlloc(&s.dv[q], n, &x); CHECK(c, r == 0 || s.dv[q] == nullptr, "failed BKDividerAlloc left a pointer"); return r; }, none);
          BKEnum g = c.flip() ? BK_CLOCK_TYPE_EFFECT : BK_CLOCK_TYPE_BEAT;
          for (Side *s : {&A, &B}) CHECK(c, BKContextAttachDivider(s->ctx, s->dv[q], g) == 0, "attach");
        } else {
          c.note("another context"); int n = (int)c.range(1, 8); BKContext *x[2] = {nullptr, nullptr};
          attempt("BKContextAlloc", false, [&](Side &s) { return BKContextAlloc(&x[&s == &B], n, 44100); }, none);
          BKFrame f[80]; CHECK(c, x[0] && x[1], "no context"); BKContextGenerate(x[0], f, 10); BKDispose(x[0]); BKDispose(x[1]);
        }
      }
    }
  }
  play(700);
  if (inUse && audible) c.nontrivial();
  c.note("%ld failed allocations", faults);
  for (int i = 0; i < nd; i++) if (B.d[i]) dropData(i);
  for (int i = 0; i < ni; i++) if (B.in[i]) dropInstr(i);
  for (Side *s : {&A, &B}) {
    for (auto p : s->t) BKDispose(p);
    for (auto p : s->ck) BKDispose(p);
    for (auto p : s->dv) BKDispose(p);
    BKDispose(s->ctx); if (inPlaceCtx) free(s->ctx);
    for (auto f : s->lent) delete f;
  }
  CHECK(c, vp_live == 0, "%ld blocks with %ld bytes were not released", vp_live, vp_live_bytes);
  delete w;
}
std::vector<vp::Property> vp_properties() {
  return {{"C25", "a history of up to 60 calls (every constructor, copy, data and instrument operation) in which each call is first made with its 1st, 2nd, ... allocation failing, once and from then on, until it succeeds; non-trivial: an allocation failed in a call changing data or an instrument that was sounding, and sound was heard", 160000, 1600000, test, {}}};
}
VP_MAIN
