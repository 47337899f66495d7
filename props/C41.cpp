#include "common.h"
#include <numeric>
// C41: hours of audio change nothing: after billions of frames everything goes on like after few.
static const int64_t G = 1LL << 31;
static int64_t manyFrames(Case &c, int64_t ahead) {    // ends near or before a power of two, so that it is passed while listening
  int64_t b = G >> 1;
  switch (c.weighted({6, 4, 1, 3})) { case 0: b = G; break; case 1: b = 2 * G; break; case 2: b = c.pick({3 * G, 4 * G}); break; default: b = c.range(G / 4, 2 * G + G / 2); }
  return b - c.range(0, ahead);
}
// time passes without anybody listening
static void pass(Case &c, BKContext *ctx, int channels, int64_t n) {
  while (n > 0) {
    BKFUInt20 k = (BKFUInt20)std::min<int64_t>(n, 2047);
    BKInt r = BKContextEnd(ctx, k << BK_FINT20_SHIFT);
    CHECK(c, r >= 0, "advancing gives %d", r);
    for (int i = 0; i < channels; i++) BKBufferClear(&ctx->channels[i]);
    n -= k;
  }
}
static BKTime timeOf(Case &c, BKContext *ctx) { BKTime t = 0; CHECK(c, BKGetPtr(ctx, BK_TIME, &t, sizeof t) == 0, "no time"); return t; }
// a whole program started late
static void late(Case &c) {
  SceneOpts o; o.maxSources = 3; o.maxLen = 4000; o.channels = (int)c.weighted({5, 2}) + 1;
  std::unique_ptr<Scene> sc(new Scene(genScene(c, o)));
  int64_t n = manyFrames(c, sc->length + 200);
  describe(c, *sc); c.note("started after %lld frames", (long long)n);
  Frames res[2]; BKTime end[2]; std::vector<int> status[2];
  for (int v = 0; v < 2; v++) {
    auto p = new Player(*sc); BKUnit dummy;
    p->atContext = [&](BKContext *ctx) {
      BKUnitInit(&dummy, BK_SQUARE); CHECK(c, BKUnitAttach(&dummy, ctx) == 0, "attach");
      pass(c, ctx, sc->channels, v ? n % 5000 : n);
      CHECK(c, timeOf(c, ctx) == (v ? n % 5000 : n) * FU, "time is %.3f after %lld frames", timeOf(c, ctx) / (double)FU, (long long)(v ? n % 5000 : n));
    };
    p->setup(); CHECK(c, p->err.empty(), "%s", p->err.c_str());
    // chunks must be the same for both
    int64_t step = 137; res[v] = Frames(); p->run(res[v], [&](int64_t k) { step = step * 5 % 1021 + 1; return std::min(k, step); });
    CHECK(c, p->err.empty(), "%s", p->err.c_str());
    end[v] = timeOf(c, p->ctx) - (v ? n % 5000 : n) * FU; status[v] = p->status;
    BKDispose(&dummy);
    delete p;
  }
  CHECK(c, status[0] == status[1], "status codes differ");
  CHECK(c, firstDiff(res[0], res[1]) == res[0].size() && res[0].size() == res[1].size(), "sample %zu is %s after hours, %s after %lld frames", firstDiff(res[0], res[1]), framesStr(res[0].data() + firstDiff(res[0], res[1]), 1, 1).c_str(), framesStr(res[1].data() + firstDiff(res[0], res[1]), 1, 1).c_str(), (long long)(n % 5000));
  CHECK(c, end[0] == end[1], "time passed is %.4f, expected %.4f", end[0] / (double)FU, end[1] / (double)FU);
  if (energy(res[0])) c.nontrivial();
  c.label("started late");
}
struct Tick { int who; BKTime at, next; BKUInt div; };
struct Log { std::vector<Tick> t; BKContext *ctx = NULL; bool on = false; BKTime base = 0; int every = 0, count = 0; BKTime wait = 0; };
struct Who { Log *l; int i; };
static BKEnum onTick(BKCallbackInfo *info, void *u) {
  Who *w = (Who *)u;
  if (w->l->on) w->l->t.push_back({w->i, w->l->ctx->currentTime - w->l->base, info->event == BK_EVENT_CLOCK ? info->nextTime - w->l->base : 0, info->event == BK_EVENT_DIVIDER ? info->divider : 0});
  if (w->i == 3 && w->l->on && w->l->every && ++w->l->count % w->l->every == 0) info->nextTime += w->l->wait; // another period from now on
  return 0;
}
struct Sink { Frames *f; int channels; };
static BKInt sink(BKFrame *in, BKUInt n, void *info) { Sink *s = (Sink *)info; s->f->insert(s->f->end(), in, in + n * s->channels); return 0; }
// clocks and sources which go on for hours
static void on(Case &c) {
  int channels = (int)c.weighted({5, 2}) + 1;
  int64_t P = c.range(60, 900), P2 = c.chance(1, 2) ? P * c.range(1, 4) : c.chance(1, 2) ? 240 : 441;
  bool own = c.chance(3, 4), cb = c.chance(3, 4); int nd = (int)c.range(0, 3); int cnt[3], where[3];
  int64_t L = P * 4; auto mul = [&](int64_t x) { L = std::lcm(L, x); };
  if (own) mul(P2);
  for (int i = 0; i < nd; i++) { cnt[i] = (int)c.range(1, 5); where[i] = (int)c.draw(own ? 3 : 2); mul((where[i] == 2 ? P2 : P) * cnt[i]); }
  bool sound = c.chance(1, 3); BKEnum wave = (BKEnum)c.pick({BK_SQUARE, BK_TRIANGLE, BK_SAWTOOTH, BK_SINE}); int phases = wave == BK_SAWTOOTH ? 7 : wave == BK_SQUARE ? 16 : 32;
  int64_t per = c.range(40, 400);
  if (sound) mul(per * phases);
  if (L > 40000000) c.discard();
  int64_t n = manyFrames(c, 6000); if (sound && n > 3 * G) n -= 2 * G;
  int64_t few = n % L + (300000 + L - 1) / L * L;
  int ring = sound ? 60000 : 2000;                                     // heard before comparing, so that the past fades
  int nops = (int)c.range(1, 8); struct Do { int kind, a, b; }; std::vector<Do> dos;
  for (int i = 0; i < nops; i++) { Do d; d.kind = c.weighted({3, 2, 2, 4, 2}); d.a = d.kind == 0 ? noteVal(c) : d.kind == 1 ? (int)c.range(0, 20000) : d.kind == 2 ? (int)c.range(0, 400) : (int)c.logRange(1, 3000); d.b = (int)c.range(0, 30000); dos.push_back(d); }
  int every = own && cb ? (int)c.pick({1, 1, 1, 0, 2, 5}) : 0; BKTime wait = (BKTime)c.range(60, 1500) * FU + c.range(0, FU - 1);
  if (every) c.note("every %d ticks the next is in %.3f frames", every, wait / (double)FU);
  c.note("%d channels, clock of %lld frames%s%s, %d dividers, %s, %lld frames, compared with %lld", channels, (long long)P, own ? ", another of " : "", own ? std::to_string(P2).c_str() : "", nd, !sound ? "silent" : attrName(wave), (long long)n, (long long)few);
  for (auto &d : dos) c.note("%s %d %d", d.kind == 0 ? "note" : d.kind == 1 ? "volume" : d.kind == 2 ? "volume slide" : d.kind == 3 ? "generate" : "generate to time", d.a, d.b);
  Frames res[2]; Log logs[2]; BKTime end[2]; std::vector<int> ret[2];
  for (int v = 0; v < 2; v++) {
    BKContext ctx; BKTrack t; BKUnit u; BKClock k; BKDivider dv[3]; Who who[4]; Log &l = logs[v];
    CHECK(c, BKContextInit(&ctx, channels, 44100) == 0, "init"); l.ctx = &ctx; l.every = every; l.wait = wait;
    BKTime p = (BKTime)P * FU; CHECK(c, BKSetPtr(&ctx, BK_CLOCK_PERIOD, &p, sizeof p) == 0, "period");
    BKTrackInit(&t, BK_SQUARE); BKTrackAttach(&t, &ctx); BKSetAttr(&t, BK_MASTER_VOLUME, 20000); BKSetAttr(&t, BK_VOLUME, BK_MAX_VOLUME);
    BKUnitInit(&u, wave); BKUnitAttach(&u, &ctx);
    who[3] = {&l, 3}; BKCallback kc{onTick, &who[3]};
    if (own) { BKTime q = (BKTime)P2 * FU; CHECK(c, BKClockInit(&k, q, cb ? &kc : NULL) == 0 && BKClockAttach(&k, &ctx, NULL) == 0, "clock"); }
    for (int i = 0; i < nd; i++) {
      who[i] = {&l, i}; BKCallback dc{onTick, &who[i]}; BKDividerInit(&dv[i], cnt[i], &dc);
      if (where[i] == 2) BKDividerAttachToClock(&dv[i], &k); else BKContextAttachDivider(&ctx, &dv[i], where[i] ? BK_CLOCK_TYPE_BEAT : BK_CLOCK_TYPE_EFFECT);
    }
    if (sound) {
      BKSetAttr(&u, BK_PERIOD, (BKInt)(per * FU));
      BKSetAttr(&u, BK_VOLUME, 9000); BKSetAttr(&u, BK_MUTE, 0);
    }
    int64_t todo = v ? few : n;
    pass(c, &ctx, channels, todo - ring);
    Frames tmp((size_t)ring * channels); CHECK(c, BKContextGenerate(&ctx, tmp.data(), ring) == ring, "generate");
    { BKTime t = timeOf(c, &ctx); CHECK(c, t >= todo * FU && t <= (todo + 900) * FU, "time is %.3f after %lld frames", t / (double)FU, (long long)todo); } // clocks run ahead to the next tick
    l.base = todo * FU; l.on = true;
    Frames &out = res[v];
    for (auto &d : dos) {
      switch (d.kind) {
        case 0: BKSetAttr(&t, BK_NOTE, d.a); break;
        case 1: BKSetAttr(&t, BK_VOLUME, d.a); break;
        case 2: { BKInt s[1] = {d.a}; BKTrackSetEffect(&t, BK_EFFECT_VOLUME_SLIDE, s, sizeof s); BKSetAttr(&t, BK_VOLUME, d.b); break; }
        case 3: { size_t b = out.size(); out.resize(b + (size_t)d.a * channels); BKInt r = BKContextGenerate(&ctx, out.data() + b, d.a); CHECK(c, r == d.a, "generating %d frames gives %d", d.a, r); break; }
        default: { Sink s{&out, channels}; ret[v].push_back(BKContextGenerateToTime(&ctx, timeOf(c, &ctx) + (BKTime)d.a * FU + d.b, sink, &s)); break; }
      }
    }
    { size_t b = out.size(); out.resize(b + 1500 * channels); BKInt r = BKContextGenerate(&ctx, out.data() + b, 1500); CHECK(c, r == 1500, "generating 1500 frames gives %d", r); }
    end[v] = timeOf(c, &ctx) - l.base;
    BKDispose(&t); BKDispose(&u);
    for (int i = 0; i < nd; i++) BKDispose(&dv[i]);
    if (own) BKDispose(&k);
    BKDispose(&ctx);
  }
  CHECK(c, ret[0] == ret[1], "frame counts of generating to a time differ");
  CHECK(c, res[0].size() == res[1].size(), "%zu samples, expected %zu", res[0].size(), res[1].size());
  for (size_t i = 0; i < res[0].size(); i++) CHECK(c, std::abs(res[0][i] - res[1][i]) <= (sound ? 1 : 0), "sample %zu is %d after hours, %d after %lld frames", i, res[0][i], res[1][i], (long long)few);
  CHECK(c, logs[0].t.size() == logs[1].t.size(), "%zu ticks after hours, %zu after %lld frames", logs[0].t.size(), logs[1].t.size(), (long long)few);
  for (size_t i = 0; i < logs[0].t.size(); i++) { auto &a = logs[0].t[i], &b = logs[1].t[i]; CHECK(c, a.who == b.who && a.at == b.at && a.next == b.next && a.div == b.div, "tick %zu of %d at %.4f (next %.4f), expected of %d at %.4f (next %.4f)", i, a.who, a.at / (double)FU, a.next / (double)FU, b.who, b.at / (double)FU, b.next / (double)FU); }
  CHECK(c, end[0] == end[1], "time passed is %.4f, expected %.4f", end[0] / (double)FU, end[1] / (double)FU);
  if (energy(res[0]) && (nd || own)) c.nontrivial();
  c.label(sound ? "tone for hours" : "clocks for hours");
}
static void test(Case &c) { if (c.chance(2, 3)) on(c); else late(c); }
std::vector<vp::Property> vp_properties() {
  return {{"C41", "programs started after 2^29 to 2^33 frames, and clocks, dividers and tones going on that long, against the same after few frames; most pass 2^31 or 2^32 while compared; non-trivial: something was heard (and ticks counted)",
    160, 2400, test, {}, "exploration", {}, 60}};
}
VP_MAIN
