#include "common.h"
#include "model.h"
// C18: samples play their frames in the order given by range, direction, repetition, sustain range and speed.
// A unit (or a track's note) plays a sample; a step model predicts the amplitude steps, the events and the readable state.
struct Data { int ch; Frames f; int s0 = 0, s1 = 0; };   // s0, s1: sustain range the data carries
enum { P_RANGE, P_SUSTAIN, P_REPEAT, P_PERIOD, P_PHASE, P_VOL, P_MUTE, P_IMMED, P_RELEASE, P_SAMPLE, P_CALLBACK, P_NOSAMPLE, P_DETACH, P_ATTACH, P_DISPOSE, P_WAVE, P_DATASUS, P_EDIT };
struct SOp { int k; int a = 0, b = 0; };
struct Reply { BKEnum ret = 0; std::vector<SOp> acts; };
static std::string sopStr(const SOp &o) {
  static const char *n[] = {"range", "sustain range", "repeat", "period", "phase", "volume", "mute", "immediate release", "release", "sample", "callback", "no sample", "detach", "attach", "dispose data", "waveform", "sustain range of data", "replace frames of data"};
  return std::string(n[o.k]) + " " + std::to_string(o.a) + " " + std::to_string(o.b);
}

static Frames edited(Frames f, int seed) { uint32_t x = (uint32_t)seed; for (auto &v : f) { x = x * 1664525u + 1013904223u; v = (BKFrame)(x >> 16); } return f; }
struct Model {
  std::vector<Data> data;
  int nch; std::vector<RefChannel> *out = nullptr;
  bool playing = false;             // a sample is set
  int d = -1, off = 0, end = 0, base = 0, length = 0;
  int64_t phase = 0, frac = 0, period = FU; int repeat = 0, count = 0;
  int so = 0, se = 0; bool sus = false, immed = false, rel = false;
  int vol[8] = {0}, mute = 0; int64_t last[8] = {0}, time = 0;
  bool cb = false, attached = true, other = false;
  const std::vector<Reply> *replies = nullptr, *begins = nullptr; size_t nr = 0, nb = 0;
  std::vector<int> log; int depth = 0;
  std::vector<bool> dead;
  long emitted = 0, wraps = 0, susWraps = 0, flips = 0;
  Model(const std::vector<Data> &x, int n) : data(x), nch(n), dead(x.size(), false) {}
  void begin() {
    if (!cb) return;
    log.push_back(0);
    if (!begins->empty() && depth == 0) { depth++; const Reply &r = (*begins)[nb++ % begins->size()]; for (auto &o : r.acts) op(o); depth--; }
  }
  void setSustain(int a, int b) {
    if (a == b) a = b = 0;
    if (a < 0) a += length + 1;
    if (b < 0) b += length + 1;
    a = (int)clampi(a, 0, length); b = (int)clampi(b, 0, length);
    if (b < a) std::swap(a, b);
    sus = a != b; so = a; se = b;
  }
  void setRange(int a, int b) {
    int n = (int)data[d].f.size() / data[d].ch;
    if (a < 0) a += n + 1;
    if (b < 0) b += n + 1;
    a = (int)clampi(a, 0, n); b = (int)clampi(b, 0, n);
    int nb = std::min(a, b), nl = abs(a - b);
    int64_t np = phase + base - nb;                 // keep playing the same frame if it is still in the range
    if (np < 0 || np >= nl) np = 0;
    if (count == 0) {                               // not repeated yet: start at the side playing begins
      if (a < b && phase == nl - 1) np = 0;
      else if (a > b && phase == 0) np = nl - 1;
    }
    off = a; end = b; base = nb; length = nl;
    period = a > b ? -llabs(period) : llabs(period);
    phase = np;
    setSustain(0, 0);
  }
  // returns whether the call is expected to succeed
  bool op(const SOp &o) {
    switch (o.k) {
      case P_SAMPLE:
        if (dead[o.a]) return true;                 // skipped
        if (!attached) { if (playing || other) { playing = other = false; } return false; }
        if (data[o.a].ch != 1 && data[o.a].ch != nch) { playing = false; return false; }
        playing = true; other = false; d = o.a; base = 0; off = 0; length = end = (int)data[d].f.size() / data[d].ch;
        period = llabs(period); phase = 0; repeat = 0; count = 0; setSustain(data[d].s0, data[d].s1);
        immed = rel = false;
        begin();
        return true;
      case P_NOSAMPLE: if (playing) { playing = false; phase = 0; so = se = off = end = 0; sus = immed = rel = false; repeat = 0; } return true;
      case P_RANGE: if (!playing) return false; if (o.a == 99 && o.b == 99) setRange(0, -1); else setRange(o.a, o.b); return true;
      case P_SUSTAIN: if (!playing) return false; if (o.a == 99 && o.b == 99) setSustain(0, 0); else setSustain(o.a, o.b); return true;
      case P_REPEAT: repeat = o.a == BK_REPEAT || o.a == BK_PALINDROME ? o.a : 0; return true;
      case P_PERIOD: { int64_t v = clampi(llabs((int64_t)o.a), 1 << 12, 1 << 28); period = period < 0 ? -v : v; return true; }
      case P_PHASE:
        if (!playing || length < 1) return true;    // skipped
        begin();
        if (!playing || length < 1) return true;
        if (o.a < 0) phase = end > off ? 0 : length - 1; else phase = std::min(o.a, length - 1);
        return true;
      case P_VOL: if (o.a < 0) for (int &v : vol) v = o.b; else vol[o.a] = o.b; return true;
      case P_MUTE: mute = o.a != 0; return true;
      case P_IMMED: immed = o.a != 0; return true;
      case P_RELEASE:
        if (sus) { rel = o.a != 0; if (rel && immed && !mute) phase = period > 0 ? std::min(se, length - 1) : std::max(0, so - 1); }
        return true;
      case P_CALLBACK: cb = o.a != 0; return true;
      case P_DETACH: attached = false; return true;
      case P_EDIT: if (dead[o.a]) return true; data[o.a].f = edited(data[o.a].f, o.b); if (playing && d == o.a) { SOp again{P_SAMPLE, d, 0}; return op(again); } return true;
      case P_DISPOSE: if (dead[o.a]) return true; dead[o.a] = true; if (playing && d == o.a) { SOp no{P_NOSAMPLE, 0, 0}; return op(no); } return true;
      case P_DATASUS: data[o.a].s0 = o.b % 1000; data[o.a].s1 = o.b / 1000; return true;   // only counts when the sample is set
      default: return true;
    }
  }
  void run(int64_t to) {
    if (playing && attached && !mute && abs(end - off) >= 2) {
      for (; time < to; time += FU) {
        const Data &x = data[d];
        if (out) for (int i = 0; i < nch; i++) {
          int64_t v = fl((int64_t)x.f[(size_t)(base + phase) * x.ch + (x.ch == 1 ? 0 : i)] * vol[i], 15);
          (*out)[i].step(time + frac, v - last[i]); last[i] = v;
        }
        emitted++;
        int64_t p = (phase << 20) + frac + period;
        phase = p >> 20; frac = p & (FU - 1);
        if (phase < 0 || phase >= length) {
          int mode = repeat;
          if (cb) {
            log.push_back(1);
            mode = 0;
            if (!replies->empty()) { const Reply &r = (*replies)[nr++ % replies->size()]; for (auto &o : r.acts) op(o); mode = r.ret; }
          }
          if (!attached || !playing || length < 1) { if (mode != BK_REPEAT && mode != BK_PALINDROME && mode != BK_SAMPLE_REPEAT) mute = 1; count++; time += FU; break; }
          wraps++;
          int dir = phase >= length ? 1 : phase < 0 ? -1 : 0;
          phase = ((phase % length) + length) % length;
          count++;
          if (mode == BK_REPEAT || mode == BK_SAMPLE_REPEAT) { if (dir) period = dir * llabs(period); }
          else if (mode == BK_PALINDROME) {
            if (dir) flips++;
            if (dir > 0) { phase = length - phase - 1; period = -llabs(period); }
            else if (dir < 0) { phase = std::min<int64_t>(length - phase, length - 1); period = llabs(period); }
          } else mute = 1;
          if (mute || abs(end - off) < 2) { time += FU; break; }
        }
        if (sus && !rel) {
          if (period > 0 ? phase >= se : phase < so) { phase = period > 0 ? so : se - 1; susWraps++; }
        }
      }
    }
    time = std::max(time, to);
  }
};

struct Real {
  BKContext *ctx = nullptr; BKUnit *u = nullptr; std::vector<BKData *> data; std::vector<bool> dead;
  const std::vector<Reply> *replies, *begins; size_t nr = 0, nb = 0; std::vector<int> log; int depth = 0; std::string err;
  bool track = false; std::vector<size_t> len; std::vector<int> ch;
  static BKEnum call(BKCallbackInfo *info, void *p) {
    Real *r = (Real *)p;
    if (info->object != (void *)r->u) r->err = "callback with another object";
    if (info->event == BK_EVENT_SAMPLE_BEGIN) {
      r->log.push_back(0);
      if (!r->begins->empty() && r->depth == 0) { r->depth++; for (auto &o : (*r->begins)[r->nb++ % r->begins->size()].acts) r->op(o); r->depth--; }
      return 0;
    }
    if (info->event != BK_EVENT_SAMPLE_RESET) { r->err = "callback with unknown event"; return 0; }
    r->log.push_back(1);
    if (r->replies->empty()) return 0;
    const Reply &x = (*r->replies)[r->nr++ % r->replies->size()];
    for (auto &o : x.acts) r->op(o);
    return x.ret;
  }
  int op(const SOp &o) {
    BKInt v[2] = {o.a, o.b};
    bool null = o.a == 99 && o.b == 99;
    switch (o.k) {
      case P_RANGE: return BKSetPtr(u, BK_SAMPLE_RANGE, null ? nullptr : v, null ? 0 : sizeof v);
      case P_SUSTAIN: return BKSetPtr(u, BK_SAMPLE_SUSTAIN_RANGE, null ? nullptr : v, null ? 0 : sizeof v);
      case P_REPEAT: return BKSetAttr(u, BK_SAMPLE_REPEAT, o.a);
      case P_PERIOD: return BKSetAttr(u, BK_SAMPLE_PERIOD, o.a);
      case P_PHASE: { BKInt w = 0, n = 0; BKGetAttr(u, BK_WAVEFORM, &w); BKGetAttr(u, BK_NUM_PHASES, &n); if (w != BK_SAMPLE || n < 1) return 0; return BKSetAttr(u, BK_PHASE, o.a); }
      case P_VOL: return BKSetAttr(u, o.a < 0 ? BK_VOLUME : BK_VOLUME_0 + o.a, o.b);
      case P_MUTE: return BKSetAttr(u, BK_MUTE, o.a);
      case P_IMMED: return BKSetAttr(u, BK_SAMPLE_IMMED_RELEASE, o.a);
      case P_RELEASE: return BKSetAttr(u, BK_FLAG_RELEASE, o.a);
      case P_SAMPLE: return dead[o.a] ? 0 : BKSetPtr(u, BK_SAMPLE, data[o.a], sizeof(void *));
      case P_NOSAMPLE: return BKSetPtr(u, BK_SAMPLE, nullptr, sizeof(void *));
      case P_CALLBACK: { BKCallback cb = {call, this}; return BKSetPtr(u, BK_SAMPLE_CALLBACK, o.a ? &cb : nullptr, sizeof cb); }
      case P_DETACH: BKUnitDetach(u); return 0;
      case P_EDIT: { if (dead[o.a]) return 0; Frames f = edited(Frames(len[o.a]), o.b); return BKDataSetFrames(data[o.a], f.data(), (BKUInt)f.size() / ch[o.a], ch[o.a], 1); }
      case P_DISPOSE: if (!dead[o.a]) { dead[o.a] = true; BKData *x = data[o.a]; data[o.a] = nullptr; BKDispose(x); } return 0;
      case P_DATASUS: if (dead[o.a]) return 0; v[0] = o.b % 1000; v[1] = o.b / 1000; return BKSetPtr(data[o.a], BK_SAMPLE_SUSTAIN_RANGE, v, sizeof v);
    }
    return 0;
  }
  ~Real() {}
  void finish() { if (u) { BKDispose(u); free(u); } for (auto *x : data) if (x) BKDispose(x); if (ctx) { BKDispose(ctx); free(ctx); } }
};

static SOp genOp(Case &c, const std::vector<Data> &data, int maxLen, int where /*0 outside 1 reset callback 2 begin callback*/) {
  SOp o;
  auto idx = [&] { return (int)c.edgy(-maxLen - 3, maxLen + 3, {0, -1, 1, 2, -2, maxLen, maxLen - 1, maxLen / 2}); };
  o.k = where == 0 ? c.weighted({6, 6, 4, 5, 5, 3, 5, 2, 4, 4, 2, 1, 0, 0, 1, 0, 2, 4})
      : where == 1 ? c.weighted({4, 3, 1, 3, 1, 3, 2, 1, 3, 2, 0, 1, 1, 0, 0, 0, 1})
                   : c.weighted({4, 3, 1, 2, 0, 1, 1, 1, 1, 0, 0, 0, 0});
  switch (o.k) {
    case P_RANGE: case P_SUSTAIN: o.a = idx(); o.b = idx(); if (o.k == P_RANGE && c.chance(1, 3)) o.a = 0; if (o.k == P_RANGE && c.chance(1, 4)) o.b = -1; if (c.chance(1, 10)) o.a = o.b = 99; if (c.chance(1, 8)) std::swap(o.a, o.b);
      // starting an empty range is not judged
      if (where == 2 && o.k == P_RANGE) { o.a = (int)c.range(0, 1); o.b = -1; if (c.flip()) std::swap(o.a, o.b); }
      break;
    case P_REPEAT: o.a = c.pick({(int)BK_NO_REPEAT, (int)BK_REPEAT, (int)BK_PALINDROME, 77}); break;
    case P_PERIOD: o.a = c.weighted({3, 3, 2, 1}) == 0 ? FU : c.pick({FU / 2, FU * 2, FU / 3, FU * 3 / 2, (int)c.logRange(1 << 12, 1 << 23), (int)c.logRange(1, INT32_MAX), -FU, 0, FU + 1, FU - 1, 1 << 28}); break;
    case P_PHASE: o.a = idx(); if (c.chance(1, 4)) o.a = -1; break;
    case P_VOL: o.a = (int)c.range(-1, 7); o.b = (int)c.edgy(0, 32767, {0, 32767, 1, 16384}); break;
    case P_MUTE: o.a = c.chance(1, 3); break;
    case P_IMMED: o.a = c.flip(); break;
    case P_RELEASE: o.a = !c.chance(1, 5); break;
    case P_SAMPLE: o.a = c.draw((uint32_t)data.size()); break;
    case P_CALLBACK: o.a = !c.chance(1, 3); break;
    case P_DISPOSE: o.a = c.draw((uint32_t)data.size()); break;
    case P_EDIT: o.a = c.draw((uint32_t)data.size()); o.b = (int)c.draw(1 << 20); break;
    case P_DATASUS: o.a = c.draw((uint32_t)data.size()); o.b = (int)c.range(0, std::min(maxLen + 3, 999)) + 1000 * (int)c.range(0, maxLen + 3); break;
  }
  return o;
}

static void test(Case &c) {
  int nch = (int)c.edgy(1, 8, {1, 2});
  int rate = c.pick({44100, 16000, 96000});
  std::vector<Data> data((size_t)c.range(1, 3));
  int maxLen = 0;
  for (auto &d : data) {
    d.ch = c.weighted({3, 2, 1}); d.ch = d.ch == 0 ? 1 : d.ch == 1 ? nch : (int)c.range(1, 8);
    int n = (int)(c.chance(1, 80) ? c.logRange(1000, 70000) : c.chance(1, 3) ? c.range(2, 6) : c.logRange(2, c.thorough ? 600 : 150));
    if (n > 1000) { uint32_t x = (uint32_t)c.draw(1 << 20); for (int i = 0; i < n * d.ch; i++) d.f.push_back((BKFrame)((x = x * 1664525u + 1013904223u) >> 16)); }
    else for (int i = 0; i < n * d.ch; i++) d.f.push_back((BKFrame)c.edgy(-32768, 32767, {32767, -32768, 0}));
    if (c.chance(1, 3)) { d.s0 = (int)c.edgy(-n - 3, n + 3, {0, -1}); d.s1 = (int)c.edgy(-n - 3, n + 3, {-1, n}); }
    maxLen = std::max(maxLen, n);
  }
  if (data[0].ch != 1 && data[0].ch != nch) { data[0].f.resize(data[0].f.size() / data[0].ch); data[0].ch = 1; }
  std::vector<Reply> replies((size_t)c.range(0, 4)), begins((size_t)(c.chance(1, 4) ? c.range(1, 2) : 0));
  bool acting = c.chance(1, 3);
  for (auto &r : replies) {
    r.ret = c.pick({(BKEnum)BK_NO_REPEAT, (BKEnum)BK_REPEAT, (BKEnum)BK_PALINDROME, (BKEnum)BK_SAMPLE_REPEAT, (BKEnum)BK_REPEAT, (BKEnum)12345});
    if (acting) { int m = (int)c.range(0, 2); for (int i = 0; i < m; i++) r.acts.push_back(genOp(c, data, maxLen, 1)); }
  }
  for (auto &r : begins) { int m = (int)c.range(0, 2); for (int i = 0; i < m; i++) r.acts.push_back(genOp(c, data, maxLen, 2)); }
  std::vector<std::pair<int64_t, std::vector<SOp>>> steps;
  int n = (int)c.range(1, 7);
  int64_t total = 0;
  for (int i = 0; i < n; i++) {
    std::vector<SOp> v;
    if (i == 0) {
      v.push_back({P_SAMPLE, 0, 0});
      if (c.chance(1, 2)) v.push_back(genOp(c, data, maxLen, 0));
      if (c.chance(2, 3)) v.push_back({P_REPEAT, c.flip() ? BK_REPEAT : BK_PALINDROME, 0});
      if (c.chance(1, 3)) { SOp o{P_SUSTAIN, 0, 0}; o.a = (int)c.range(0, maxLen); o.b = (int)c.range(0, maxLen); v.push_back(o); }
      if (c.chance(1, 3)) v.insert(v.begin(), {P_CALLBACK, 1, 0});
    } else { int m = (int)c.range(0, 3); for (int j = 0; j < m; j++) v.push_back(genOp(c, data, maxLen, 0)); }
    int64_t len = c.weighted({3, 2, 1}) == 0 ? c.logRange(1, 600) : c.pick({(int64_t)1, (int64_t)2, (int64_t)maxLen, (int64_t)maxLen + 1, (int64_t)1024, (int64_t)1100});
    total += len;
    steps.push_back({len, v});
  }
  int kernel = (int)c.range(0, 1);
  bool split = c.flip();
  c.note("%d channels, rate %d, kernel %d", nch, rate, kernel);
  for (auto &d : data) c.note("data: %d channels, sustain range %d %d, frames %s", d.ch, d.s0, d.s1, framesStr(d.f.data(), d.f.size(), 16).c_str());
  for (size_t i = 0; i < replies.size(); i++) { std::string s; for (auto &o : replies[i].acts) s += " " + sopStr(o) + ";"; c.note("end %zu of sample: callback returns %u%s", i, replies[i].ret, s.c_str()); }
  for (size_t i = 0; i < begins.size(); i++) { std::string s; for (auto &o : begins[i].acts) s += " " + sopStr(o) + ";"; c.note("begin %zu of sample:%s", i, s.c_str()); }
  for (auto &st : steps) { for (auto &o : st.second) c.note("%s", sopStr(o).c_str()); c.note("play %ld", (long)st.first); }

  std::vector<RefChannel> ref(nch, RefChannel(total, (const BKBufferPulse *)BKBufferPulseKernels[kernel]));
  Model m(data, nch); m.out = &ref; m.replies = &replies; m.begins = &begins;
  std::unique_ptr<Real> rp(new Real()); Real &r = *rp;
  r.replies = &replies; r.begins = &begins; r.dead.assign(data.size(), false);
  r.ctx = (BKContext *)malloc(sizeof(BKContext)); r.u = (BKUnit *)malloc(sizeof(BKUnit));
  CHECK(c, BKContextInit(r.ctx, nch, rate) == 0, "context");
  BKSetPtr(r.ctx, BK_PULSE_KERNEL, (void *)BKBufferPulseKernels[kernel], sizeof(void *));
  CHECK(c, BKUnitInit(r.u, BK_SQUARE) == 0 && BKUnitAttach(r.u, r.ctx) == 0, "unit");
  m.mute = 0;
  for (auto &d : data) { BKData *x = nullptr; CHECK(c, BKDataAlloc(&x) == 0 && BKDataSetFrames(x, d.f.data(), (BKUInt)d.f.size() / d.ch, d.ch, 1) == 0, "data"); r.data.push_back(x); r.len.push_back(d.f.size()); r.ch.push_back(d.ch); BKInt sr[2] = {d.s0, d.s1}; CHECK(c, BKSetPtr(x, BK_SAMPLE_SUSTAIN_RANGE, sr, sizeof sr) == 0, "sustain range of data"); }
  // a second source keeps the context producing if the unit is detached
  BKUnit *idle = (BKUnit *)malloc(sizeof(BKUnit));
  CHECK(c, BKUnitInit(idle, BK_SQUARE) == 0 && BKUnitAttach(idle, r.ctx) == 0, "unit");
  BKSetAttr(idle, BK_PERIOD, 100 * FU);
  SOp v{P_VOL, -1, (int)c.edgy(0, 32767, {32767, 20000})};
  m.op(v); r.op(v);
  CHECK(c, BKSetAttr(r.u, BK_PERIOD, 4 * FU) == 0, "period");
  Frames got; got.reserve((size_t)total * nch);
  int64_t pos = 0;
  auto state = [&](size_t i, const char *when) {
    if (!m.playing || !m.attached) return;
    BKInt g = 0, range[2] = {0, 0};
    CHECK(c, BKGetAttr(r.u, BK_NUM_PHASES, &g) == 0 && g == m.length, "step %zu %s: length %d, expected %d", i, when, g, m.length);
    if (m.length >= 1) CHECK(c, BKGetAttr(r.u, BK_PHASE, &g) == 0 && g == m.phase, "step %zu %s: phase %d, expected %ld", i, when, g, (long)m.phase);
    CHECK(c, BKGetAttr(r.u, BK_MUTE, &g) == 0 && !!g == !!m.mute, "step %zu %s: mute %d, expected %d", i, when, g, m.mute);
    CHECK(c, BKGetAttr(r.u, BK_SAMPLE_PERIOD, &g) == 0 && g == llabs(m.period), "step %zu %s: period %d, expected %ld", i, when, g, (long)m.period);
    CHECK(c, BKGetPtr(r.u, BK_SAMPLE_RANGE, range, sizeof range) == 0 && range[0] == m.off && range[1] == m.end, "step %zu %s: range %d..%d, expected %d..%d", i, when, range[0], range[1], m.off, m.end);
    CHECK(c, BKGetPtr(r.u, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof range) == 0 && range[0] == m.so && range[1] == m.se, "step %zu %s: sustain range %d..%d, expected %d..%d", i, when, range[0], range[1], m.so, m.se);
  };
  size_t seen = 0;
  bool stopped = false;
  for (size_t i = 0; i < steps.size() && !stopped; i++) {
    for (auto &o : steps[i].second) {
      if (!m.attached) break;
      bool ok = m.op(o); int rc = r.op(o);
      CHECK(c, (rc == 0) == ok, "step %zu: %s returned %d", i, sopStr(o).c_str(), rc);
      state(i, "after an operation");
    }
    int64_t len = steps[i].first, done = 0;
    m.run((pos + len) * FU);
    while (done < len) {
      int64_t k = split ? c.range(1, len - done) : len - done;
      Frames tmp((size_t)k * nch);
      BKInt n = BKContextGenerate(r.ctx, tmp.data(), (BKUInt)k);
      CHECK(c, n == k, "step %zu: %d frames instead of %ld", i, n, (long)k);
      got.insert(got.end(), tmp.begin(), tmp.end());
      done += k;
    }
    pos += len;
    CHECK(c, r.err.empty(), "step %zu: %s", i, r.err.c_str());
    for (; seen < m.log.size() || seen < r.log.size(); seen++) {
      static const char *en[] = {"begin", "reset", "nothing"};
      int a = seen < m.log.size() ? m.log[seen] : 2, b = seen < r.log.size() ? r.log[seen] : 2;
      CHECK(c, a == b, "step %zu, event %zu: expected %s, got %s", i, seen, en[a], en[b]);
    }
    state(i, "after playing");
  }
  for (int k = 0; k < nch; k++) {
    auto want = ref[k].render(pos);
    for (int64_t i = 0; i < pos; i++) CHECK(c, want[(size_t)i] == got[(size_t)i * nch + k], "channel %d frame %ld: got %d, expected %d", k, (long)i, got[(size_t)i * nch + k], want[(size_t)i]);
  }
  r.finish(); BKDispose(idle); free(idle);
  if (m.emitted > 20 && energy(got) > got.size() / 8) c.nontrivial();
  if (m.wraps > 1) c.label("repeated");
  if (m.flips) c.label("palindrome");
  if (m.susWraps) c.label("sustained");
  bool carried = false; for (auto &d : data) carried |= d.s0 != d.s1;
  if (m.susWraps && carried) c.label("data with a sustain range");
  if (m.susWraps && m.rel) c.label("released");
  if (m.nr) c.label("callback asked");
  if (acting && m.nr) c.label("callback acts");
  if (m.period < 0) c.label("reverse");
  if (maxLen > 4000) c.label("long sample");
}

// a track plays the sample: notes start, release and silence it
static void testTrack(Case &c) {
  int nch = (int)c.range(1, 2), P = (int)c.range(20, 300);
  std::vector<Data> data((size_t)c.range(1, 2));
  int maxLen = 0;
  for (auto &d : data) { d.ch = c.chance(1, 4) ? nch : 1; int n = (int)c.logRange(2, 150); for (int i = 0; i < n * d.ch; i++) d.f.push_back((BKFrame)c.edgy(-32768, 32767, {32767, 0})); maxLen = std::max(maxLen, n); if (c.chance(1, 3)) { d.s0 = (int)c.range(0, n); d.s1 = (int)c.edgy(-1, n, {-1, n}); } }
  std::vector<Reply> replies((size_t)c.range(0, 3)), begins;
  for (auto &r : replies) r.ret = c.pick({(BKEnum)BK_NO_REPEAT, (BKEnum)BK_REPEAT, (BKEnum)BK_PALINDROME});
  Model m(data, nch); m.replies = &replies; m.begins = &begins;
  std::unique_ptr<Real> rp(new Real()); Real &r = *rp;
  r.replies = &replies; r.begins = &begins; r.dead.assign(data.size(), false); r.track = true;
  r.ctx = (BKContext *)malloc(sizeof(BKContext)); BKTrack *t = (BKTrack *)malloc(sizeof(BKTrack)); r.u = (BKUnit *)t;
  CHECK(c, BKContextInit(r.ctx, nch, 44100) == 0 && BKTrackInit(t, BK_SQUARE) == 0 && BKTrackAttach(t, r.ctx) == 0, "setup");
  BKTime tp = (BKTime)P * FU; CHECK(c, BKSetPtr(r.ctx, BK_CLOCK_PERIOD, &tp, sizeof tp) == 0, "clock period");
  BKSetAttr(t, BK_MASTER_VOLUME, 32767); BKSetAttr(t, BK_VOLUME, 32767);
  for (auto &d : data) { BKData *x = nullptr; CHECK(c, BKDataAlloc(&x) == 0 && BKDataSetFrames(x, d.f.data(), (BKUInt)d.f.size() / d.ch, d.ch, 1) == 0, "data"); r.data.push_back(x); BKSetAttr(x, BK_SAMPLE_PITCH, 0); BKInt sr[2] = {d.s0, d.s1}; CHECK(c, BKSetPtr(x, BK_SAMPLE_SUSTAIN_RANGE, sr, sizeof sr) == 0, "sustain range of data"); }
  m.mute = 1;
  m.out = nullptr;                                  // only the position is followed
  bool sounding = false; int steps = (int)c.range(2, 14), notes = 0, released = 0; int64_t pos = 0;
  c.note("%d channels, tick every %d frames; %zu samples of up to %d frames", nch, P, data.size(), maxLen);
  for (int i = 0; i < steps; i++) {
    int n = i == 0 ? 2 : (int)c.range(0, 2);
    for (int j = 0; j < n; j++) {
      int k = i == 0 ? j == 0 ? 0 : 1 : c.weighted({1, 5, 4, 1, 2, 2, 2, 1, 1, 1});
      SOp o{P_WAVE, 0, 0};
      if (k == 0) {
        o = {P_SAMPLE, i == 0 ? 0 : (int)c.draw((uint32_t)data.size()), 0};
        c.note("%s", sopStr(o).c_str());
        if (!(m.playing && m.d == o.a)) CHECK(c, m.op(o) == (r.op(o) == 0), "step %d: setting the sample", i);
        else CHECK(c, r.op(o) == 0, "step %d: setting the sample again", i);
      } else if (k == 1) {
        int note = (int)c.range(20, 70) * FU; c.note("note %.2f", note / (double)FU);
        if (!sounding) { m.op({P_PHASE, -1, 0}); notes++; }
        sounding = true; m.mute = 0; m.op({P_RELEASE, 0, 0});
        CHECK(c, BKSetAttr(t, BK_NOTE, note) == 0, "note");
      } else if (k == 2) {
        c.note("release");
        sounding = false; if (m.sus) { m.op({P_RELEASE, 1, 0}); released++; } else m.mute = 1;
        CHECK(c, BKSetAttr(t, BK_NOTE, BK_NOTE_RELEASE) == 0, "release");
      } else if (k == 3) {
        c.note("mute");
        sounding = false; m.mute = 1; m.op({P_RELEASE, 0, 0});
        CHECK(c, BKSetAttr(t, BK_NOTE, BK_NOTE_MUTE) == 0, "mute");
      } else {
        o.k = k == 4 ? P_RANGE : k == 5 ? P_SUSTAIN : k == 6 ? P_REPEAT : k == 7 ? P_IMMED : k == 8 ? P_CALLBACK : P_PHASE;
        if (o.k <= P_SUSTAIN) { o.a = (int)c.edgy(-maxLen, maxLen, {0, -1}); o.b = (int)c.edgy(-maxLen, maxLen, {-1, maxLen}); }
        else if (o.k == P_REPEAT) o.a = c.pick({(int)BK_REPEAT, (int)BK_PALINDROME, (int)BK_NO_REPEAT});
        else if (o.k == P_PHASE) o.a = (int)c.range(-1, maxLen);
        else o.a = !c.chance(1, 4);
        c.note("%s", sopStr(o).c_str());
        CHECK(c, m.op(o) == (r.op(o) == 0), "step %d: %s", i, sopStr(o).c_str());
        if (m.length < 1) { o = {P_RANGE, 99, 99}; m.op(o); r.op(o); }   // starting an empty range is not judged
      }
    }
    int k = (int)c.range(1, 4);
    c.note("play %d ticks", k);
    for (int q = 0; q < k; q++) {
      // the note's frequency decides the speed
      Frames tmp((size_t)P * nch);
      BKInt before = 0; BKGetAttr(t, BK_SAMPLE_PERIOD, &before);
      CHECK(c, BKContextGenerate(r.ctx, tmp.data(), (BKUInt)P) == P, "frames");
      BKInt per = 0; CHECK(c, BKGetAttr(t, BK_SAMPLE_PERIOD, &per) == 0, "period");
      m.op({P_PERIOD, per, 0});
      pos += P; m.run(pos * FU);
      BKInt g = 0, range[2] = {0, 0};
      CHECK(c, BKGetAttr(t, BK_MUTE, &g) == 0 && !!g == !!m.mute, "step %d tick %d: mute %d, expected %d", i, q, g, m.mute);
      if (m.length >= 1) CHECK(c, BKGetAttr(t, BK_PHASE, &g) == 0 && g == m.phase, "step %d tick %d: phase %d, expected %ld", i, q, g, (long)m.phase);
      CHECK(c, BKGetPtr(t, BK_SAMPLE_RANGE, range, sizeof range) == 0 && range[0] == m.off && range[1] == m.end, "step %d: range %d..%d, expected %d..%d", i, range[0], range[1], m.off, m.end);
      CHECK(c, BKGetPtr(t, BK_SAMPLE_SUSTAIN_RANGE, range, sizeof range) == 0 && range[0] == m.so && range[1] == m.se, "step %d: sustain range %d..%d, expected %d..%d", i, range[0], range[1], m.so, m.se);
      CHECK(c, r.log == m.log, "step %d tick %d: %zu callbacks, expected %zu", i, q, r.log.size(), m.log.size());
      if (m.mute) for (auto f : tmp) (void)f;
    }
  }
  r.finish();
  if (notes >= 1 && m.emitted > 20) c.nontrivial();
  c.label("track");
  if (released) c.label("track note released from its sustain range");
}
// a sample belongs into contexts with its number of channels (or has one channel)
static void testAttach(Case &c) {
  int ch = (int)c.range(1, 8), n1 = c.chance(3, 4) ? ch : (int)c.range(1, 8), n2 = (int)c.range(1, 8), len = (int)c.range(2, 30); if (c.chance(1, 4)) n2 = ch;
  Frames f; for (int i = 0; i < len * ch; i++) f.push_back((BKFrame)c.edgy(-32768, 32767, {32767, -32768}));
  c.note("sample of %d frames, %d channels; contexts of %d and %d channels", len, ch, n1, n2);
  BKContext a, b, d; BKUnit u, w; BKData x;
  CHECK(c, BKContextInit(&a, n1, 44100) == 0 && BKContextInit(&b, n2, 44100) == 0 && BKContextInit(&d, n2, 44100) == 0 && BKUnitInit(&u, BK_SQUARE) == 0 && BKUnitInit(&w, BK_SQUARE) == 0 && BKDataInit(&x) == 0, "init");
  CHECK(c, BKDataSetFrames(&x, f.data(), len, ch, 1) == 0 && BKUnitAttach(&u, &a) == 0, "setup");
  int fits1 = ch == 1 || ch == n1, fits2 = ch == 1 || ch == n2;
  for (BKUnit *p : {&u, &w}) { BKSetAttr(p, BK_PERIOD, FU); BKSetAttr(p, BK_VOLUME, 20000); }
  BKInt r = BKSetPtr(&u, BK_SAMPLE, &x, sizeof(void *));
  CHECK(c, r == (fits1 ? 0 : BK_INVALID_NUM_CHANNELS), "setting the sample gives %d", r);
  BKUnitDetach(&u);
  r = BKUnitAttach(&u, &b);
  CHECK(c, r == (fits2 || !fits1 ? 0 : BK_INVALID_NUM_CHANNELS), "attaching to the other context gives %d", r);
  if (r) { c.label("attachment refused"); CHECK(c, BKUnitAttach(&u, &a) == 0, "attaching to a fitting context again"); }
  else if (fits1) {
    BKUnitAttach(&w, &d); CHECK(c, BKSetPtr(&w, BK_SAMPLE, &x, sizeof(void *)) == 0, "setting the sample");
    for (BKUnit *p : {&u, &w}) { BKSetAttr(p, BK_SAMPLE_REPEAT, BK_REPEAT); BKSetAttr(p, BK_MUTE, 0); }
    Frames g(100 * n2), h(100 * n2);
    CHECK(c, BKContextGenerate(&b, g.data(), 100) == 100 && BKContextGenerate(&d, h.data(), 100) == 100, "generate");
    CHECK(c, g == h, "moved to the other context it differs at sample %zu", firstDiff(g, h));
    if (energy(g)) c.nontrivial();
    c.label("moved to another context");
  }
  BKDispose(&u); BKDispose(&w); BKDispose(&x); BKDispose(&a); BKDispose(&b); BKDispose(&d);
}
// a part of a sample of millions of frames sounds like a sample which is only that part
static void testLong(Case &c) {
  int nch = (int)c.range(1, 3), ch = c.flip() ? nch : 1, n = (int)c.edgy(66000, (8 << 20) / ch, {1 << 16, 1 << 20, (1 << 20) + 5, 1 << 22, 4000000 / ch}), len = (int)c.range(2, 300);
  int64_t p = c.chance(1, 3) ? n - len : c.chance(1, 2) ? (int64_t)c.pick({1 << 16, 1 << 20, 1 << 21, 1 << 22}) - c.range(0, len) : c.range(0, n - len);
  if (p > n - len) p = n - len;
  uint32_t x = (uint32_t)c.draw(1 << 20);
  Frames all((size_t)n * ch); for (auto &f : all) f = (BKFrame)((x = x * 1664525u + 1013904223u) >> 16);
  Frames part(all.begin() + p * ch, all.begin() + (p + len) * ch);
  int rep = c.pick({(int)BK_NO_REPEAT, (int)BK_REPEAT, (int)BK_PALINDROME}), period = c.flip() ? FU : (int)c.logRange(1 << 16, 1 << 22); bool back = c.flip(), own = c.chance(1, 4);
  c.note("%d frames of %d channels, %d frames from %ld%s, repeat %d, period %d", n, ch, len, (long)p, back ? " backwards" : "", rep, period);
  struct O { BKContext ctx; BKUnit u; BKData d; bool made = false; ~O() { if (made) { BKDispose(&u); BKDispose(&d); BKDispose(&ctx); } } } o[2];
  for (int i = 0; i < 2; i++) {
    O &k = o[i];
    CHECK(c, BKContextInit(&k.ctx, nch, 44100) == 0 && BKUnitInit(&k.u, BK_SQUARE) == 0 && BKDataInit(&k.d) == 0, "init"); k.made = true;
    int at = i ? 0 : (int)p, r[2] = {at, at + len}; if (back) std::swap(r[0], r[1]);
    CHECK(c, BKDataSetFrames(&k.d, i ? part.data() : all.data(), i ? len : n, ch, own) == 0 && BKUnitAttach(&k.u, &k.ctx) == 0 && BKSetPtr(&k.u, BK_SAMPLE, &k.d, sizeof(void *)) == 0, "data");
    CHECK(c, BKSetPtr(&k.u, BK_SAMPLE_RANGE, r, sizeof r) == 0 && BKSetAttr(&k.u, BK_SAMPLE_REPEAT, rep) == 0 && BKSetAttr(&k.u, BK_SAMPLE_PERIOD, period) == 0 && BKSetAttr(&k.u, BK_VOLUME, 12000) == 0 && BKSetAttr(&k.u, BK_PHASE, -1) == 0 && BKSetAttr(&k.u, BK_MUTE, 0) == 0, "attributes");
    int g[2]; CHECK(c, BKGetPtr(&k.u, BK_SAMPLE_RANGE, g, sizeof g) == 0 && g[0] == r[0] && g[1] == r[1], "range %d..%d reads %d..%d", r[0], r[1], g[0], g[1]);
  }
  Frames a, b; int total = (int)c.logRange(20, 3000), loud = 0;
  a.resize((size_t)total * nch); b = a;
  for (int t = 0; t < total; ) { int m = std::min(total - t, (int)c.logRange(1, 1500)); CHECK(c, BKContextGenerate(&o[0].ctx, a.data() + (size_t)t * nch, m) == m && BKContextGenerate(&o[1].ctx, b.data() + (size_t)t * nch, m) == m, "generate"); t += m; }
  for (size_t i = 0; i < a.size(); i++) { CHECK(c, a[i] == b[i], "value %zu of a part of a long sample is %d, of the part alone %d", i, a[i], b[i]); loud += a[i] != 0; }
  for (BKEnum at : {BK_PHASE, BK_MUTE, BK_NUM_PHASES}) { BKInt v[2] = {0, 0}; BKGetAttr(&o[0].u, at, &v[0]); BKGetAttr(&o[1].u, at, &v[1]); CHECK(c, v[0] == v[1], "attribute %#x is %d, %d with the part alone", at, v[0], v[1]); }
  if (loud > 20) c.nontrivial();
  c.label("part of a long sample");
}
static void any(Case &c) { if (c.chance(1, 2500)) { testLong(c); return; } if (c.chance(1, 20)) { testAttach(c); return; } if (c.chance(1, 4)) testTrack(c); else test(c); }
std::vector<vp::Property> vp_properties() {
  return {{"C18", "a unit plays one of up to three samples (1..8 channels) while range, sustain range, repeat mode, period, phase, volumes, mute, release and callback change, from outside and inside the callback; audio, events and readable state are compared with a step model; non-trivial: over 20 frames emitted and more than 1/8 of the output non-zero; a quarter of the cases play the sample by a track's notes", 267000, 2670000, any, {}}};
}
VP_MAIN
