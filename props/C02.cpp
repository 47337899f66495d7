#include "common.h"
// C02: generating to a point in time equals streaming.
struct Sink { Frames *out; int nch; long blocks = 0, frames = 0; long refuseAt = -1; long calls = 0; BKUInt maxBlock = 0; bool empty = false; };
static BKInt sinkWrite(BKFrame *f, BKUInt size, void *u) {
  Sink *s = (Sink *)u;
  s->calls++;
  if (size == 0) s->empty = true;
  s->maxBlock = std::max(s->maxBlock, size);
  s->frames += size;
  s->out->insert(s->out->end(), f, f + (size_t)size * s->nch);
  if (s->refuseAt >= 0 && s->blocks++ >= s->refuseAt) return 1;
  return 0;
}
// contexts which have no source for some of the calls
static void empty(Case &c) {
  int nch = (int)c.range(1, 8); bool clk = c.flip(); BKTime per = c.range(1, 2000) * FU + c.range(0, FU - 1);
  BKContext ctx; BKUnit u; BKClock k; int64_t pos = 0; Frames got; Sink sink; sink.out = &got; sink.nch = nch;
  CHECK(c, BKContextInit(&ctx, nch, 44100) == 0 && BKUnitInit(&u, BK_SQUARE) == 0 && BKClockInit(&k, per, nullptr) == 0, "init");
  BKSetAttr(&u, BK_PERIOD, 10 << 20); BKSetAttr(&u, BK_VOLUME, 9000); BKSetAttr(&u, BK_MUTE, 0);
  if (clk) { c.note("clock of %.3f frames", per / (double)FU); BKClockAttach(&k, &ctx, nullptr); }
  bool had = false, on = false; int n = (int)c.range(1, 6), silent = 0;
  for (int i = 0; i < n; i++) {
    bool want = c.chance(1, 3); int64_t len = c.logRange(1, 20000);
    if (want != on) { c.note(want ? "source attached" : "source detached"); if (want) CHECK(c, BKUnitAttach(&u, &ctx) == 0, "attach"); else BKUnitDetach(&u); on = want; }
    had |= on; pos += len; c.note("generate to %lld", (long long)pos);
    long before = sink.frames; BKInt r = BKContextGenerateToTime(&ctx, pos * FU, sinkWrite, &sink);
    CHECK(c, !sink.empty, "the writer was called without frames");
    CHECK(c, r == sink.frames - before, "call %d returned %d, writer got %ld frames", i, r, sink.frames - before);
    CHECK(c, had || r == 0, "%d frames without any source", r);
    CHECK(c, !on || clk || r == len, "%d frames, expected %lld", r, (long long)len);
    BKTime t = 0; CHECK(c, BKGetPtr(&ctx, BK_TIME, &t, sizeof t) == 0 && t >= pos * FU && t <= pos * FU + per, "time is %.3f", t / (double)FU);
    silent += !on;
  }
  CHECK(c, BKContextGenerateToTime(&ctx, pos * FU, sinkWrite, &sink) == 0, "frames for a time already reached");
  c.label("without sources"); if (silent && n > 1) c.nontrivial();
  BKDispose(&u); BKDispose(&k); BKDispose(&ctx);
}
static void test(Case &c) {
  if (c.chance(1, 16)) { empty(c); return; }
  SceneOpts o; o.tickAttach = true;
  o.maxLen = c.thorough ? 12000 : 4000;
  o.attachOps = false;
  Scene s = genScene(c, o);
  bool noClocks = c.chance(1, 4);
  if (noClocks) { s.clocks.clear(); s.dividers.clear(); s.masterPeriod = 0; }
  // end times of the successive calls, in 1/2^20 frames
  std::vector<BKTime> ends;
  int n = (int)c.range(1, 6);
  bool fractional = c.chance(1, 2);
  BKTime total = 0;
  for (int i = 0; i < n; i++) {
    int64_t fr = c.weighted({6, 1, 1}) == 0 ? c.logRange(1, s.length) : c.pick({(int64_t)1024, (int64_t)1023, (int64_t)2048, (int64_t)682, (int64_t)683});
    BKTime e = total + fr * FU;
    if (fractional) e = e - (e % FU) + c.range(0, FU - 1);
    ends.push_back(e); total = e;
    if (c.chance(1, 8)) ends.push_back(e - c.range(0, 3 * FU));   // already reached
  }
  long refuseAt = c.chance(1, 6) ? (long)c.range(0, 3) : -1;
  int64_t frames = total / FU;
  // operations happen between calls: move them to the ends of calls that are whole frames
  std::vector<std::vector<Op>> at(ends.size());
  if (!fractional) for (auto &op : s.ops) { size_t k = c.draw((uint32_t)ends.size()); at[k].push_back(op); }
  s.ops.clear();
  s.length = frames;
  describe(c, s);
  { std::string d; for (auto e : ends) { char b[40]; snprintf(b, sizeof b, " %.6f", e / (double)FU); d += b; } c.note("ends:%s refuse at block %ld", d.c_str(), refuseAt); }
  for (size_t i = 0; i < at.size(); i++) for (auto &op : at[i]) c.note("before call %zu: %s", i, opStr(op).c_str());
  // reference: ordinary streaming
  Frames want;
  std::vector<size_t> upTo;
  {
    Player p(s); p.setup();
    if (p.sc.sources.empty()) c.discard();
    BKTime pos = 0;
    for (size_t i = 0; i < ends.size(); i++) {
      for (auto &op : at[i]) p.apply(op);
      BKTime e = std::max(pos, ends[i]);
      int64_t k = e / FU - pos / FU;
      if (k > 0) p.produce(want, k, [](int64_t x) { return x; });
      CHECK(c, p.err.empty(), "streaming: %s", p.err.c_str());
      pos = e;
      upTo.push_back(want.size());
    }
    CHECK(c, want.size() == (size_t)frames * s.channels, "streaming gave %zu samples", want.size());
  }
  Frames got;
  Sink sink; sink.out = &got; sink.nch = s.channels; sink.refuseAt = refuseAt;
  Player p(s); p.setup();
  bool refused = false, lag = false;
  size_t i = 0;
  for (; i < ends.size(); i++) {
    for (auto &op : at[i]) p.apply(op);
    long before = sink.frames;
    size_t beforeSamples = got.size();
    BKInt r = BKContextGenerateToTime(p.ctx, ends[i], sinkWrite, &sink);
    CHECK(c, !sink.empty, "the writer was called without frames");
    if (refuseAt >= 0 && sink.blocks > refuseAt) {
      refused = true;
      CHECK(c, r == BK_INVALID_RETURN_VALUE, "call %zu: writer refused but the call returned %d", i, r);
      CHECK(c, sink.blocks == refuseAt + 1, "call %zu: the writer was called again after refusing", i);
      // the stream goes on behind the refused block; what is left of this call may be delivered with the next one
      sink.refuseAt = -1; before = sink.frames; lag = true;
      r = BKContextGenerateToTime(p.ctx, ends[i], sinkWrite, &sink);
      CHECK(c, r == sink.frames - before, "call %zu again after the refusal returned %d, writer got %ld frames", i, r, sink.frames - before);
      refuseAt = -1;
      continue;
    }
    CHECK(c, r == sink.frames - before, "call %zu to %.6f returned %d, writer got %ld frames", i, ends[i] / (double)FU, r, sink.frames - before);
    CHECK(c, lag ? got.size() <= upTo[i] : got.size() == upTo[i], "call %zu to %.6f: %zu samples delivered altogether, expected %zu (%zu before)", i, ends[i] / (double)FU, got.size(), upTo[i], beforeSamples);
  }
  size_t m = std::min(got.size(), want.size());
  size_t d = firstDiff(got, want);
  CHECK(c, d >= m, "differs from streaming at sample %zu: %s vs %s", d, framesStr(got.data() + d, got.size() - d, 8).c_str(), framesStr(want.data() + d, want.size() - d, 8).c_str());
  // streaming on after the last call continues seamlessly
  {
    int64_t more = c.range(1, 200);
    Frames a, b;
    if (lag) {
      BKInt r = BKContextGenerateToTime(p.ctx, (total / FU + more) * FU, sinkWrite, &sink);
      CHECK(c, r >= 0 && got.size() == want.size() + (size_t)more * s.channels, "%zu samples altogether after a refusal, expected %zu", got.size(), want.size() + (size_t)more * s.channels);
      d = firstDiff(got, want);
      CHECK(c, d >= want.size(), "after a refusal: differs from streaming at sample %zu: %s vs %s", d, framesStr(got.data() + d, got.size() - d, 8).c_str(), framesStr(want.data() + d, want.size() - d, 8).c_str());
      a.assign(got.begin() + want.size(), got.end());
    }
    else p.produce(a, more, [](int64_t x) { return x; });
    CHECK(c, p.err.empty(), "streaming after generating to a time: %s", p.err.c_str());
    Player q(s); q.setup();
    BKTime pos = 0;
    for (size_t k = 0; k < ends.size(); k++) {
      for (auto &op : at[k]) q.apply(op);
      BKTime e = std::max(pos, ends[k]);
      int64_t cnt = e / FU - pos / FU;
      Frames tmp; if (cnt > 0) q.produce(tmp, cnt, [](int64_t x) { return x; });
      pos = e;
    }
    q.produce(b, more, [](int64_t x) { return x; });
    d = firstDiff(a, b);
    CHECK(c, d == a.size() && a.size() == b.size(), "streaming on after generating to a time differs at sample %zu: %s vs %s", d, framesStr(a.data() + d, a.size() - d, 8).c_str(), framesStr(b.data() + d, b.size() - d, 8).c_str());
  }
  if (energy(want) > want.size() / 8 && frames > 20 && ends.size() > 1) c.nontrivial();
  c.label(refused ? "refused" : "completed");
  c.label(fractional ? "fractional ends" : "whole ends");
  c.label(noClocks ? "no own clocks" : "clocks");
}
std::vector<vp::Property> vp_properties() {
  return {{"C02", "random scene; several generate-to-time calls (whole or fractional ends, repeated ends, refusing writers, operations between calls) against the streaming call on an identical scene; non-trivial: two calls or more, over 20 frames, more than 1/8 of the samples non-zero", 41000, 500000, test, {}}};
}
VP_MAIN
