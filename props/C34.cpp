#include "common.h"
// C34: a context driven by hand (run, end, size, read) delivers what generating to the same points in time does.
struct Sink { Frames *out; int nch; };
static BKInt sinkWrite(BKFrame *f, BKUInt n, void *u) { Sink *s = (Sink *)u; s->out->insert(s->out->end(), f, f + (size_t)n * s->nch); return 0; }
static void test(Case &c) {
  SceneOpts o; o.tickAttach = true;
  o.maxLen = c.thorough ? 9000 : 4000;
  o.attachOps = true;
  Scene s = genScene(c, o);
  if (c.chance(1, 3)) { s.clocks.clear(); s.dividers.clear(); s.masterPeriod = 0; }
  // moments at which operations happen, fractional or not
  bool fractional = c.chance(2, 3);
  std::vector<int64_t> moments;
  int n = (int)c.range(1, 6);
  int64_t total = 0;
  for (int i = 0; i < n; i++) {
    int64_t e = total + c.logRange(1, std::max<int64_t>(1, s.length / 2)) * FU;
    if (fractional) e = e - e % FU + c.range(0, FU - 1);
    moments.push_back(e); total = e;
  }
  std::vector<std::vector<Op>> at(moments.size());
  for (auto &op : s.ops) at[c.draw((uint32_t)at.size())].push_back(op);
  s.ops.clear(); s.length = total / FU;
  describe(c, s);
  Frames want, got;
  // after that, both generate to one more time
  int64_t further = c.flip() ? c.range(1, 900 * FU) : 0;
  {
    Player p(s); p.setup();
    if (p.sc.sources.empty()) c.discard();
    Sink k{&want, s.channels};
    for (size_t i = 0; i < moments.size(); i++) {
      for (auto &op : at[i]) p.apply(op);
      BKInt r = BKContextGenerateToTime(p.ctx, moments[i], sinkWrite, &k);
      CHECK(c, r >= 0, "generating to a time gives %d", r);
    }
    if (further) CHECK(c, BKContextGenerateToTime(p.ctx, total + further, sinkWrite, &k) >= 0, "generating to a time");
  }
  Player p(s); p.setup();
  int64_t ended = 0, read = 0;           // in 1/2^20 frames, in frames
  long runs = 0, ends = 0, reads = 0, ahead = 0;
  auto take = [&](int64_t ask) {
    int64_t have = ended / FU - read;
    CHECK(c, BKContextSize(p.ctx) == have, "%lld frames are said to be readable, %lld have been ended and not read", (long long)BKContextSize(p.ctx), (long long)have);
    BKFrame *buf = (BKFrame *)::malloc(sizeof(BKFrame) * (ask * s.channels + 1));
    BKInt r = BKContextRead(p.ctx, buf, (BKUInt)ask);
    CHECK(c, r == std::min(ask, have), "reading %lld of %lld frames gives %d", (long long)ask, (long long)have, r);
    got.insert(got.end(), buf, buf + (size_t)r * s.channels);
    ::free(buf);
    read += r; reads++;
    CHECK(c, BKContextSize(p.ctx) == have - r, "%d frames left, expected %lld", BKContextSize(p.ctx), (long long)(have - r));
  };
  const int64_t ROOM = 3000;             // frames the buffers can hold, less what clocks run ahead
  for (size_t i = 0; i < moments.size(); i++) {
    for (auto &op : at[i]) { c.note("before %.6f: %s", i ? moments[i - 1] / (double)FU : 0.0, opStr(op).c_str()); p.apply(op); }
    int64_t ranTo = i ? moments[i - 1] : 0;
    int guard = 0;
    while (ranTo < moments[i]) {
      int64_t room = (ROOM - (ended / FU - read)) * FU;
      if (room < 700 * FU) { c.note("read to make room"); take(ended / FU - read); continue; }
      // a point between what was ended and the next operation
      int64_t lim = std::min(moments[i], ended + std::min<int64_t>(room, 2047 * FU));
      int64_t to = guard++ > 12 ? lim : c.weighted({2, 3, 1}) == 0 ? lim : std::max(ended, std::min(lim, ended + c.logRange(0, 1100) * FU + (fractional ? c.range(0, FU - 1) : 0)));
      switch (c.weighted({3, 4, 3})) {
        case 0: {
          c.note("run to %.6f", to / (double)FU);
          BKInt r = BKContextRun(p.ctx, (BKFUInt20)(to - ended)); CHECK(c, r >= 0, "run gives %d", r);
          ranTo = std::max(ranTo, to); runs++;
          if (ranTo - ended >= 2047 * FU || (ranTo - ended) / FU + (ended / FU - read) > ROOM - 700) { c.note("end at %.6f", ranTo / (double)FU); BKInt q = BKContextEnd(p.ctx, (BKFUInt20)(ranTo - ended)); CHECK(c, q >= 0, "end gives %d", q); ended = ranTo; ends++; }
          break;
        }
        case 1: {
          c.note("end at %.6f", to / (double)FU);
          if (to < ranTo) ahead++;
          BKInt r = BKContextEnd(p.ctx, (BKFUInt20)(to - ended)); CHECK(c, r >= 0, "end gives %d", r);
          ended = to; ranTo = std::max(ranTo, to); ends++; break;
        }
        default: {
          int64_t have = ended / FU - read, ask = c.weighted({2, 2, 1}) == 0 ? have : c.range(0, have + 200);
          c.note("read %lld", (long long)ask); take(ask); break;
        }
      }
    }
    // all operations happen at a point the context has been run to; it may be ended later
  }
  c.note("end at %.6f, read all", total / (double)FU);
  while (ended < total) {
    if (ended / FU > read) take(ended / FU - read);
    int64_t to = std::min(total, ended + 1500 * FU);
    CHECK(c, BKContextEnd(p.ctx, (BKFUInt20)(to - ended)) >= 0, "end"); ended = to;
  }
  take(ended / FU - read + (int64_t)c.range(0, 300));
  if (further) { c.note("generate to %.6f", (total + further) / (double)FU); Sink k{&got, s.channels}; CHECK(c, BKContextGenerateToTime(p.ctx, total + further, sinkWrite, &k) >= 0, "generating to a time"); }
  size_t d = firstDiff(got, want);
  CHECK(c, got.size() == want.size() && d == got.size(), "%zu samples, expected %zu; differs from generating to the same times at sample %zu: %s vs %s", got.size(), want.size(), d, framesStr(got.data() + std::min(d, got.size()), got.size() - std::min(d, got.size()), 8).c_str(), framesStr(want.data() + std::min(d, want.size()), want.size() - std::min(d, want.size()), 8).c_str());
  if (energy(want) > want.size() / 8 && total > 20 * FU && runs + ends > 1) c.nontrivial();
  c.label(fractional ? "fractional" : "whole frames"); if (ahead) c.label("ended before the point run to");
  c.label(s.masterPeriod || s.clocks.size() ? "clocks" : "no own clocks");
}
std::vector<vp::Property> vp_properties() {
  return {{"C34", "random scene with operations at whole and fractional times, run, ended and read in random steps (running ahead of the end, ending several times before reading, asking for more frames than there are) against generating to the same times on an identical scene; non-trivial: several steps, over 20 frames, more than 1/8 of the samples non-zero", 90000, 900000, test, {}}};
}
VP_MAIN
