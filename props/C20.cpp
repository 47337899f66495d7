#include "common.h"
#include "wave.h"
// C20: sample data can be replaced, copied, normalised, converted and disposed while it is used.
// Oracle: a model of each data object's frames; and a second context whose sources are handed a fresh data object
// with the model's frames at every edit, which must sound the same.
struct Slot { bool live = false, alloc = false; int ch = 0, pitch = 0; Frames f; BKData *d = nullptr, *twin = nullptr; std::vector<std::unique_ptr<Frames>> lent; std::vector<Frames> lentWas; };
struct User { bool track, custom; int data = -1; bool attached = true; void *a = nullptr, *b = nullptr; };

static BKData *mkTwin(Case &c, const Slot &s) {
  BKData *d = nullptr;
  CHECK(c, BKDataAlloc(&d) == 0, "data");
  if (s.f.size()) CHECK(c, BKDataSetFrames(d, s.f.data(), (BKUInt)s.f.size() / s.ch, s.ch, 1) == 0, "frames of the second data object refused");
  BKSetAttr(d, BK_SAMPLE_PITCH, s.pitch);
  BKInt sus[2] = {0, 0};
  if (s.f.size()) CHECK(c, BKGetPtr(s.d, BK_SAMPLE_SUSTAIN_RANGE, sus, sizeof sus) == 0 && BKSetPtr(d, BK_SAMPLE_SUSTAIN_RANGE, sus, sizeof sus) == 0, "sustain range");
  return d;
}
struct Settings { BKInt pitch = 0, sus[2] = {0, 0}; };
static Settings settings(Case &c, BKData *d) {
  Settings s;
  CHECK(c, BKGetAttr(d, BK_SAMPLE_PITCH, &s.pitch) == 0 && BKGetPtr(d, BK_SAMPLE_SUSTAIN_RANGE, s.sus, sizeof s.sus) == 0, "reading settings of data");
  return s;
}
static Frames genFrames(Case &c, int n) {
  Frames f; int amp = c.pick({32767, 32767, 1000, 100, 1, 0});
  for (int i = 0; i < n; i++) f.push_back((BKFrame)(amp == 32767 ? c.edgy(-32768, 32767, {32767, -32768, 0}) : c.range(-amp, amp)));
  return f;
}
static void test(Case &c) {
  struct Live {
    std::vector<Slot> s; std::vector<User> u; BKContext *A = nullptr, *B = nullptr; BKUnit *ia = nullptr, *ib = nullptr;
    std::string none;
  };
  Live *L = new Live;               // released at the end only: a failing case ends the process
  int nch = (int)c.range(1, 2);
  L->s.resize((size_t)c.range(1, 3)); L->u.resize((size_t)c.range(1, 4));
  auto ctx = [&](BKContext **p, BKUnit **idle) {
    CHECK(c, BKContextAlloc(p, nch, 44100) == 0, "context");
    *idle = (BKUnit *)malloc(sizeof(BKUnit));
    CHECK(c, BKUnitInit(*idle, BK_SQUARE) == 0 && BKUnitAttach(*idle, *p) == 0, "unit");
  };
  ctx(&L->A, &L->ia); ctx(&L->B, &L->ib);
  auto both = [&](auto f, User &x) { int r = f(x.a), q = f(x.b); CHECK(c, r == q, "return values differ: %d, %d", r, q); return r; };
  for (size_t i = 0; i < L->u.size(); i++) {
    User &x = L->u[i]; x.track = c.flip(); x.custom = c.chance(1, 3);
    for (int k = 0; k < 2; k++) {
      void *p;
      BKContext *cx = k ? L->B : L->A;
      if (x.track) { p = malloc(sizeof(BKTrack)); CHECK(c, BKTrackInit((BKTrack *)p, BK_SQUARE) == 0 && BKTrackAttach((BKTrack *)p, cx) == 0, "track"); }
      else { p = malloc(sizeof(BKUnit)); CHECK(c, BKUnitInit((BKUnit *)p, BK_SQUARE) == 0 && BKUnitAttach((BKUnit *)p, cx) == 0, "unit"); BKSetAttr(p, BK_PERIOD, 7 * FU + 12345); }
      if (x.track) BKSetAttr(p, BK_MASTER_VOLUME, 20000);
      BKSetAttr(p, BK_VOLUME, 12000);
      (k ? x.b : x.a) = p;
    }
    c.note("source %zu: %s, %s", i, x.track ? "track" : "unit", x.custom ? "custom waveform" : "sample");
  }
  long edits = 0, inUse = 0, sounded = 0, silenced = 0; bool editedSinceRender = false;
  auto compare = [&](Slot &s, const char *what) {
    BKInt n = 0, ch = 0;
    CHECK(c, BKGetAttr(s.d, BK_NUM_FRAMES, &n) == 0 && BKGetAttr(s.d, BK_NUM_CHANNELS, &ch) == 0, "attributes");
    if (s.f.empty()) { CHECK(c, n == 0, "%s: %d frames in empty data", what, n); return; }
    CHECK(c, ch == s.ch && (size_t)n * ch == s.f.size(), "%s: %d frames of %d channels, expected %zu of %d", what, n, ch, s.f.size() / s.ch, s.ch);
    for (size_t i = 0; i < s.f.size(); i++) CHECK(c, s.d->frames[i] == s.f[i], "%s: frame %zu is %d, expected %d", what, i, s.d->frames[i], s.f[i]);
  };
  // all users of slot k follow: fresh data in the second context
  auto follow = [&](int k) {
    Slot &s = L->s[k];
    BKData *old = s.twin;
    edits++; editedSinceRender = true;
    s.twin = s.live ? mkTwin(c, s) : nullptr;
    bool used = false;
    for (User &x : L->u) if (x.data == k) {
      used = true;
      int r;
      if (s.twin) r = BKSetPtr(x.b, x.custom ? BK_WAVEFORM : BK_SAMPLE, s.twin, sizeof(void *));
      else { r = BKSetPtr(x.b, x.custom ? BK_WAVEFORM : BK_SAMPLE, nullptr, sizeof(void *)); x.data = -1; }
      if (r != 0) { x.data = -1; silenced++; }
      // the pitch of data is taken over when it is set, not when it is edited
      else if (x.track && !x.custom) { BKInt v = 0; BKGetAttr(x.a, BK_SAMPLE_PITCH, &v); BKSetAttr(x.b, BK_SAMPLE_PITCH, v); }
    }
    if (used) inUse++;
    if (old) BKDispose(old);
    for (size_t i = 0; i < L->s.size(); i++) if (L->s[i].live) { char b[40]; snprintf(b, sizeof b, "data %zu", i); compare(L->s[i], b); for (size_t q = 0; q < L->s[i].lent.size(); q++) CHECK(c, *L->s[i].lent[q] == L->s[i].lentWas[q], "frames of the caller were changed"); }
  };
  int steps = (int)c.range(3, c.thorough ? 40 : 25);
  Frames fa, fb;
  for (int st = 0; st < steps; st++) {
    int k = (int)c.draw((uint32_t)L->s.size());
    Slot &s = L->s[k];
    User &x = L->u[c.draw((uint32_t)L->u.size())];
    int ui = (int)(&x - &L->u[0]);
    if (!s.live) {
      if (s.d && !s.alloc) free(s.d);
      s.d = nullptr; s.alloc = c.flip(); s.f.clear(); s.ch = s.pitch = 0; s.lent.clear(); s.lentWas.clear();
      int from = c.chance(1, 2) ? (int)c.draw((uint32_t)L->s.size()) : -1;
      if (from >= 0 && L->s[from].live) {
        s.alloc = false; s.d = (BKData *)malloc(sizeof(BKData));
        c.note("data %d: copy of data %d", k, from);
        CHECK(c, BKDataInitCopy(s.d, L->s[from].d) == 0, "copy");
        Settings a = settings(c, L->s[from].d), b = settings(c, s.d);
        CHECK(c, a.pitch == b.pitch, "sample pitch %d became %d in a copy", a.pitch, b.pitch);
        CHECK(c, a.sus[0] == b.sus[0] && a.sus[1] == b.sus[1], "sustain range %d..%d became %d..%d in a copy", a.sus[0], a.sus[1], b.sus[0], b.sus[1]);
        if (a.pitch && a.sus[0] != a.sus[1]) c.label("copy with pitch and sustain range");
        s.f = L->s[from].f; s.ch = L->s[from].ch; s.pitch = L->s[from].pitch;
      } else if (s.alloc) CHECK(c, BKDataAlloc(&s.d) == 0, "alloc");
      else { s.d = (BKData *)malloc(sizeof(BKData)); CHECK(c, BKDataInit(s.d) == 0, "init"); }
      s.live = true; s.twin = mkTwin(c, s);
      compare(s, "new data");
      if (s.f.empty() && c.chance(3, 4)) {
        s.ch = c.chance(3, 4) ? 1 : nch; s.f = genFrames(c, (int)c.logRange(2, 120) * s.ch);
        c.note("data %d: frames %s of %d channels", k, framesStr(s.f.data(), s.f.size(), 8).c_str(), s.ch);
        CHECK(c, BKDataSetFrames(s.d, s.f.data(), (BKUInt)s.f.size() / s.ch, s.ch, 1) == 0, "frames");
        follow(k);
      }
    }
    switch (c.weighted({5, 2, 2, 3, 2, 2, 1, 7, 5, 2, 2, 9, 2, 1, 2, 2})) {
      case 0: {
        int ch = c.weighted({4, 2, 1}); ch = ch == 0 ? 1 : ch == 1 ? nch : (int)c.range(1, 8);
        int n = (int)c.logRange(2, 150); bool copy = c.chance(2, 3);
        std::unique_ptr<Frames> f(new Frames(genFrames(c, n * ch)));
        c.note("data %d: set %d frames of %d channels%s", k, n, ch, copy ? "" : ", not copied");
        CHECK(c, BKDataSetFrames(s.d, f->data(), n, ch, copy) == 0, "set frames");
        s.f = *f; s.ch = ch;
        if (copy) std::fill(f->begin(), f->end(), (BKFrame)-21555);
        else { s.lentWas.push_back(*f); s.lent.push_back(std::move(f)); }
        follow(k); break;
      }
      case 1: {
        int ch = (int)c.range(1, 2), n = (int)c.logRange(2, 100); Frames f = genFrames(c, n * ch);
        bool load = c.flip();
        c.note("data %d: %s raw 16 bit, %d frames of %d channels", k, load ? "load" : "set", n, ch);
        if (load) { FILE *fp = memFile(std::vector<uint8_t>((uint8_t *)f.data(), (uint8_t *)f.data() + f.size() * 2)); CHECK(c, BKDataLoadRaw(s.d, fp, ch, BK_16_BIT_SIGNED | BK_LITTLE_ENDIAN) == 0, "load"); fclose(fp); }
        else CHECK(c, BKDataSetData(s.d, f.data(), (BKUInt)f.size() * 2, ch, BK_16_BIT_SIGNED | BK_LITTLE_ENDIAN) == 0, "raw");
        s.f = f; s.ch = ch; follow(k); break;
      }
      case 2: {
        int ch = (int)c.range(1, 2), n = (int)c.logRange(2, 100); Frames f = genFrames(c, n * ch);
        bool broken = c.chance(1, 5);
        c.note("data %d: load WAVE, %d frames of %d channels%s", k, n, ch, broken ? ", truncated" : "");
        FILE *fp = memFile({});
        BKWaveFileWriter w;
        CHECK(c, BKWaveFileWriterInit(&w, fp, ch, 22050, 16) == 0 && BKWaveFileWriterAppendFrames(&w, f.data(), (BKUInt)f.size()) == 0 && BKWaveFileWriterTerminate(&w) == 0, "writing");
        BKDispose(&w);
        if (broken) { auto b = fileBytes(fp); fclose(fp); b.resize(c.range(0, 40)); fp = memFile(b); }
        rewind(fp);
        int r = BKDataLoadWAVE(s.d, fp);
        fclose(fp);
        if (broken) { CHECK(c, r < 0, "a truncated header was accepted"); compare(s, "after a failed load"); }
        else { CHECK(c, r == 0, "load returned %d", r); s.f = f; s.ch = ch; follow(k); }
        break;
      }
      case 3: {
        if (s.f.empty()) break;
        c.note("data %d: normalise", k);
        CHECK(c, BKDataNormalize(s.d) == 0, "normalise");
        int max = 0; for (auto f : s.f) max = std::max(max, abs(f));
        Frames now(s.d->frames, s.d->frames + s.f.size());
        for (size_t i = 0; i < s.f.size(); i++) {
          double want = max ? s.f[i] * 32767.0 / max : 0;
          CHECK(c, fabs(now[i] - want) < 1.5, "normalised frame %zu is %d, expected %.2f (loudest %d)", i, now[i], want, max);
          CHECK(c, abs(s.f[i]) != max || !max || abs(now[i]) >= 32766, "loudest frame became %d", now[i]);
        }
        s.f = now; follow(k); break;
      }
      case 4: {
        if (s.f.empty()) break;
        BKDataConvertInfo info; memset(&info, 0, sizeof info);
        int bits = (int)c.range(1, 16);
        info.targetNumBits = bits;
        if (c.flip()) { info.ditherSlope = (float)c.range(0, 10) / 10; info.ditherCurve = (float)c.range(1, 30) / 10; info.ditherSmoothLength = (BKUInt)c.range(1, 200); info.threshold = (float)c.range(0, 12) / 10; }
        c.note("data %d: convert to %d bits, threshold %.1f", k, bits, info.threshold);
        CHECK(c, BKDataConvert(s.d, &info) == 0, "convert");
        Frames now(s.d->frames, s.d->frames + s.f.size());
        std::set<int> values(now.begin(), now.end());
        CHECK(c, bits > 15 || values.size() <= (size_t)1 << bits, "%zu different values after converting to %d bits", values.size(), bits);
        if (bits > 8) {
          // no dithering: frames of at least the threshold keep their level (their sign may be swapped), the rest is silent
          int step = (1 << (bits > 15 ? 1 : 16 - bits)) + 1; double thr = (info.threshold == 0 ? 0.02 : info.threshold) * 32767;
          bool fits[2] = {true, true}; size_t bad[2] = {0, 0};
          for (int q = 0; q < 2; q++) for (size_t i = 0; i < s.f.size() && fits[q]; i++) {
            int f = std::max<int>(s.f[i], -32767), want = q ? -f : f;
            bool ok = (abs(f) > thr - 2 && abs(now[i] - want) <= step) || (abs(f) < thr + 1 && abs(now[i]) <= step);
            if (!ok) { fits[q] = false; bad[q] = i; }
          }
          size_t i = std::max(bad[0], bad[1]);
          CHECK(c, fits[0] || fits[1], "frame %zu converted to %d bits: %d became %d", i, bits, s.f[i], now[i]);
          c.label("converted without dithering");
        } else {
          // few bits: levels above zero, upside down, at half the range; dithered by at most one level
          int thr = (int)((info.threshold == 0 ? 0.02f : info.threshold) * 32767), level = 2 << (16 - bits);
          for (size_t i = 0; i < s.f.size(); i++) {
            int f = std::max<int>(s.f[i], -32767), want = 16384 - f / 2;
            bool loud = abs(f) >= thr - 1 && abs(now[i] - want) <= level + 2, quiet = abs(f) <= thr + 1 && abs(now[i] - 16384) <= level / 2 + 2;
            CHECK(c, loud || quiet, "frame %zu converted to %d bits: %d became %d, expected about %d", i, bits, s.f[i], now[i], abs(f) < thr ? 16384 : want);
          }
          c.label("converted with dithering");
        }
        if (info.threshold > 1.1) CHECK(c, values.size() == 1, "frames below the threshold are not silent");
        s.f = now; follow(k); break;
      }
      case 5: {
        c.note("data %d: disposed", k);
        BKDispose(s.d); s.live = false; if (s.alloc) s.d = nullptr; else memset(s.d, 0xdd, sizeof(BKData));
        // frames of the caller are not used any more
        for (auto &p : s.lent) std::fill(p->begin(), p->end(), (BKFrame)30000);
        s.lent.clear(); s.lentWas.clear();
        follow(k); break;
      }
      case 6: {
        c.note("data %d: detached", k);
        BKDataDetach(s.d);
        bool l = s.live; s.live = false; follow(k); s.live = l; s.twin = mkTwin(c, s);
        break;
      }
      case 7: {
        c.note("source %d uses data %d", ui, k);
        int r = BKSetPtr(x.a, x.custom ? BK_WAVEFORM : BK_SAMPLE, s.d, sizeof(void *));
        int q = BKSetPtr(x.b, x.custom ? BK_WAVEFORM : BK_SAMPLE, s.twin, sizeof(void *));
        CHECK(c, r == q, "setting the data returned %d and %d", r, q);
        if (r == 0) x.data = k;
        else x.data = -1;     // refused: silent from now on
        break;
      }
      case 8: {
        switch (c.weighted({6, 2, 1, 1, 1, 1, 1})) {
          case 0: if (x.track) { int v = (int)c.range(10, 80) * FU; c.note("source %d note %d", ui, v / FU); both([&](void *p) { return BKSetAttr(p, BK_NOTE, v); }, x); } break;
          case 1: { int v = c.pick({(int)BK_REPEAT, (int)BK_PALINDROME, (int)BK_NO_REPEAT}); c.note("source %d repeat %d", ui, v); both([&](void *p) { return BKSetAttr(p, BK_SAMPLE_REPEAT, v); }, x); break; }
          case 2: { int v[2] = {(int)c.range(-20, 60), (int)c.range(-20, 60)}; c.note("source %d range %d %d", ui, v[0], v[1]); both([&](void *p) { return BKSetPtr(p, BK_SAMPLE_RANGE, v, sizeof v); }, x); break; }
          case 3: { int v[2] = {(int)c.range(-20, 60), (int)c.range(-20, 60)}; c.note("source %d sustain range %d %d", ui, v[0], v[1]); both([&](void *p) { return BKSetPtr(p, BK_SAMPLE_SUSTAIN_RANGE, v, sizeof v); }, x); break; }
          case 4: if (!x.track) { c.note("source %d unmuted", ui); both([&](void *p) { return BKSetAttr(p, BK_MUTE, 0); }, x); } break;
          case 5: c.note("source %d: %s unset", ui, x.custom ? "sample" : "custom waveform"); if (both([&](void *p) { return BKSetPtr(p, x.custom ? BK_SAMPLE : BK_WAVEFORM, nullptr, sizeof(void *)); }, x)) x.data = -1; break; // which it doesn't have; silenced if refused
          default: if (!x.track) { int v = (int)c.logRange(1 << 17, 1 << 22); c.note("source %d speed %d", ui, v); both([&](void *p) { return BKSetAttr(p, BK_SAMPLE_PERIOD, v); }, x); } break;
        }
        break;
      }
      case 9: {
        if (x.attached) { c.note("source %d detached", ui); if (x.track) { BKTrackDetach((BKTrack *)x.a); BKTrackDetach((BKTrack *)x.b); } else { BKUnitDetach((BKUnit *)x.a); BKUnitDetach((BKUnit *)x.b); } x.attached = false; }
        else {
          c.note("source %d attached", ui);
          int r = x.track ? BKTrackAttach((BKTrack *)x.a, L->A) : BKUnitAttach((BKUnit *)x.a, L->A), q = x.track ? BKTrackAttach((BKTrack *)x.b, L->B) : BKUnitAttach((BKUnit *)x.b, L->B);
          CHECK(c, r == q, "attaching returned %d and %d", r, q);
          x.attached = r == 0;
        }
        break;
      }
      case 10: {
        BKEnum w = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SAWTOOTH});
        c.note("source %d waveform %s", ui, attrName(w));
        both([&](void *p) { return BKSetAttr(p, BK_WAVEFORM, (BKInt)w); }, x); x.data = -1; break;
      }
      case 15: {
        if (c.flip()) { s.pitch = (int)c.range(-24 * FU, 24 * FU); c.note("data %d: pitch %d", k, s.pitch); CHECK(c, BKSetAttr(s.d, BK_SAMPLE_PITCH, s.pitch) == 0 && BKSetAttr(s.twin, BK_SAMPLE_PITCH, s.pitch) == 0, "pitch"); }
        if (c.flip() && !s.f.empty()) { BKInt v[2] = {(BKInt)c.range(-20, 60), (BKInt)c.range(-20, 60)}; c.note("data %d: sustain range %d %d", k, v[0], v[1]); CHECK(c, BKSetPtr(s.d, BK_SAMPLE_SUSTAIN_RANGE, v, sizeof v) == 0 && BKSetPtr(s.twin, BK_SAMPLE_SUSTAIN_RANGE, v, sizeof v) == 0, "sustain range"); }
        CHECK(c, settings(c, s.d).pitch == s.pitch, "pitch is %d, expected %d", settings(c, s.d).pitch, s.pitch);
        break;
      }
      case 14: {
        int how = (int)c.draw(3);
        if (how == 2) {
          c.note("contexts reset");
          BKContextReset(L->A); BKContextReset(L->B);
          for (User &y : L->u) if (y.attached) y.data = -1;
        } else if (x.track) {
          c.note("source %d %s", ui, how ? "reset" : "cleared");
          if (how) { BKTrackReset((BKTrack *)x.a); BKTrackReset((BKTrack *)x.b); } else { BKTrackClear((BKTrack *)x.a); BKTrackClear((BKTrack *)x.b); }
          x.data = -1;
        }
        if (how < 2 ? x.track : true) for (User &y : L->u) if (y.track && y.data < 0) { int w = (int)c.range(1, 30000); for (void *p : {y.a, y.b}) BKSetAttr(p, BK_VOLUME, w); }
        break;
      }
      case 12: {
        if (s.f.empty()) break;
        c.note("data %d: refused edits", k);
        BKFrame f[4] = {1, 2, 3, 4};
        CHECK(c, BKDataSetFrames(s.d, f, 1, 1, 1) != 0 && BKDataSetFrames(s.d, f, 2, 0, 1) != 0 && BKDataSetFrames(s.d, f, 2, 9, 1) != 0 && BKDataSetFrames(s.d, nullptr, 2, 1, 0) != 0, "invalid frames accepted");
        compare(s, "after refused edits"); break;
      }
      case 13: {
        // an empty object has nothing to normalise
        if (!s.f.empty()) break;
        c.note("data %d: normalise empty", k); BKDataNormalize(s.d); follow(k); break;
      }
      default: {
        int n = (int)c.logRange(1, 700);
        c.note("play %d", n);
        fa.assign((size_t)n * nch, 0); fb.assign((size_t)n * nch, 0);
        BKInt r = BKContextGenerate(L->A, fa.data(), n), q = BKContextGenerate(L->B, fb.data(), n);
        CHECK(c, r == n && q == n, "frames: %d, %d", r, q);
        size_t d = firstDiff(fa, fb);
        CHECK(c, d == fa.size(), "after editing data in use, sample %zu differs from sources given fresh data: %s vs %s", d, framesStr(fa.data() + d, fa.size() - d, 8).c_str(), framesStr(fb.data() + d, fb.size() - d, 8).c_str());
        if (energy(fa) > 8 && editedSinceRender) sounded++;
        editedSinceRender = false;
        for (User &y : L->u) for (BKEnum at : {BK_MUTE, BK_PHASE, BK_NUM_PHASES, BK_WAVEFORM, BK_SAMPLE_REPEAT}) {
          BKInt a = 0, b = 0, w = 0; BKGetAttr(y.a, at, &a); BKGetAttr(y.b, at, &b); BKGetAttr(y.b, BK_WAVEFORM, &w);
          if (!w && at == BK_NUM_PHASES) continue;   // no waveform: nothing has phases
          CHECK(c, a == b, "source %d: %s %d, with fresh data %d", (int)(&y - &L->u[0]), attrName(at), a, b);
        }
        break;
      }
    }
  }
  long before = 0; (void)before;
  // dispose in a mixed order
  bool dataFirst = c.flip();
  auto killData = [&] { for (auto &s : L->s) { if (s.live) BKDispose(s.d); if (s.d && !s.alloc) free(s.d); if (s.twin) BKDispose(s.twin); s.d = s.twin = nullptr; } };
  auto killUsers = [&] { for (auto &x : L->u) { BKDispose(x.a); BKDispose(x.b); free(x.a); free(x.b); } };
  if (dataFirst) {
    for (auto &s : L->s) s.lent.clear();
    killData();
    fa.assign(100 * (size_t)nch, 0); BKContextGenerate(L->A, fa.data(), 100);
    killUsers();
  } else { killUsers(); killData(); }
  BKDispose(L->ia); BKDispose(L->ib); free(L->ia); free(L->ib); BKDispose(L->A); BKDispose(L->B);
  delete L;
  if (edits >= 2 && inUse >= 1 && sounded >= 1) c.nontrivial();
  if (inUse) c.label("edited while in use");
  if (silenced) c.label("user fell silent");
}
std::vector<vp::Property> vp_properties() {
  return {{"C20", "up to 3 data objects, replaced (copied or lent frames, raw, WAVE), normalised, converted, copied, detached and disposed while up to 4 units and tracks play them as sample or waveform; frames compared with a model, audio with a context whose sources get fresh data at each edit; non-trivial: an edit of data in use followed by audible output", 267000, 2670000, test, {}}};
}
VP_MAIN
