#include "common.h"
// C01: the stream does not depend on how it is requested.
static void test(Case &c) {
  SceneOpts o; o.tickAttach = true;
  o.maxLen = c.thorough ? 20000 : 6000;
  Scene s = genScene(c, o);
  int mode = c.draw(5);
  std::vector<int64_t> sizes;
  for (int i = 0; i < 12; i++) sizes.push_back(mode == 0 ? 1 : mode == 1 ? c.logRange(1, 3000) : mode == 2 ? c.pick({(int64_t)1023, (int64_t)1024, (int64_t)1025, (int64_t)2048, (int64_t)1}) : mode == 3 ? c.range(1, 64) : c.range(600, 1400));
  if (mode == 0 && s.length > 1500) s.length = 1500;
  describe(c, s);
  std::string sz; for (auto x : sizes) sz += " " + std::to_string(x);
  c.note("chunks:%s ...", sz.c_str());
  Frames a, b;
  long chunks = 0;
  {
    Player p(s); p.setup(); p.run(a, [&](int64_t n) { return n; });
    CHECK(c, p.err.empty(), "one-piece rendering: %s", p.err.c_str());
  }
  {
    Player p(s); p.setup();
    p.run(b, [&](int64_t) { return sizes[chunks++ % sizes.size()]; });
    CHECK(c, p.err.empty(), "chunked rendering: %s", p.err.c_str());
  }
  size_t d = firstDiff(a, b);
  CHECK(c, a.size() == b.size() && d == a.size(), "chunked rendering (%zu samples) differs from one piece (%zu) at sample %zu (frame %zu): %s vs %s", b.size(), a.size(), d, d / s.channels,
        framesStr(b.data() + d, b.size() - d, 8).c_str(), framesStr(a.data() + d, a.size() - d, 8).c_str());
  if (chunks >= 3 && energy(a) > a.size() / 8) c.nontrivial();
  c.label(energy(a) ? "audible" : "silent");
  for (auto &sp : s.sources) c.label(std::string("source ") + attrName(sp.wave));
  if (!s.dividers.empty()) c.label("with dividers");
  for (auto &d : s.dividers) for (auto &o : d.program) if (o.kind == OP_ATTACH || o.kind == OP_DETACH || o.kind == OP_RESET) { c.label("attach, detach or reset in callback"); break; }
}
std::vector<vp::Property> vp_properties() {
  return {{"C01", "random scene (tracks, units, samples, instruments, clocks, dividers, timed operations) rendered in one piece and in random chunks; non-trivial: at least 3 chunks and more than 1/8 of the samples non-zero", 72000, 720000, test, {}}};
}
VP_MAIN
