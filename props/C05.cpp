#include "common.h"
// C05: channel k of an n-channel context equals a one-channel context with the volume of channel k.
static Op mapOp(const Op &o, int k, bool &drop) {
  Op r = o; drop = false;
  if (o.kind == OP_ATTR && o.attr >= BK_VOLUME_0 && o.attr <= BK_VOLUME_7) { if ((int)(o.attr - BK_VOLUME_0) != k) drop = true; r.attr = BK_VOLUME_0; }
  return r;
}
// all channels at zero volume freeze the phase, so single channel volumes stay above zero
static void sanitise(Op &o, const Scene &s) {
  if (o.kind == OP_ATTR && (o.attr == BK_VOLUME || (o.attr >= BK_VOLUME_0 && o.attr <= BK_VOLUME_7)) && o.target < (int)s.sources.size() && !s.sources[o.target].track) o.v[0] = std::max(o.v[0], 1);
  if (o.kind == OP_ATTR && o.attr == BK_PANNING) { o.attr = BK_DUTY_CYCLE; o.v[0] = 1 + (unsigned)o.v[0] % 15; }
  if (o.kind == OP_EFFECT && o.attr == BK_EFFECT_PANNING_SLIDE) o.attr = BK_EFFECT_VOLUME_SLIDE;
}
static void test(Case &c) {
  SceneOpts o; o.maxLen = c.thorough ? 5000 : 2000; o.panning = false;
  o.channels = (int)c.pick({2, 3, 4, 5, 6, 7, 8, 8});
  Scene s = genScene(c, o);
  int n = s.channels;
  auto each = [&](const std::function<void(Op &)> &f) {
    for (auto &sp : s.sources) for (auto &x : sp.init) f(x);
    for (auto &d : s.dividers) for (auto &x : d.program) f(x);
    for (auto &x : s.ops) f(x);
  };
  each([&](Op &x) { sanitise(x, s); });
  for (auto &in : s.instrs) in.seq[BK_SEQUENCE_PANNING].kind = 0;
  // custom waveforms read one channel only
  bool multi = false;
  for (auto &d : s.data) multi |= d.channels > 1;
  if (multi) {
    for (auto &sp : s.sources) if (sp.wave == BK_CUSTOM) sp.wave = BK_SAMPLE;
    each([&](Op &x) { if (x.kind == OP_DATA) x.attr = BK_SAMPLE; });
  }
  describe(c, s);
  // the pieces are requested into exact buffers; a guard follows each of them
  Frames all; { Player p(s); p.setup(); p.run(all, [&](int64_t m) { return c.chance(1, 3) ? c.range(1, std::min<int64_t>(m, 700)) : m; }); CHECK(c, p.err.empty(), "%s", p.err.c_str()); }
  CHECK(c, all.size() == (size_t)s.length * n, "%zu samples", all.size());
  size_t loud = 0; bool differ = false;
  for (int k = 0; k < n; k++) {
    Scene t = s; t.channels = 1;
    auto mapAll = [&](std::vector<Op> &v) { std::vector<Op> r; for (auto &x : v) { bool d; Op y = mapOp(x, k, d); if (d) { y.kind = OP_NOP; } r.push_back(y); } v = r; };
    for (auto &sp : t.sources) mapAll(sp.init);
    for (auto &d : t.dividers) mapAll(d.program);
    mapAll(t.ops);
    for (auto &d : t.data) if (d.channels > 1) { Frames f; for (size_t i = 0; i < d.frames.size() / d.channels; i++) f.push_back(d.frames[i * d.channels + k]); d.frames = f; d.channels = 1; }
    Player p(t); p.setup(); Frames one = p.render();
    CHECK(c, p.err.empty(), "one channel: %s", p.err.c_str());
    CHECK(c, one.size() == (size_t)s.length, "one channel: %zu samples", one.size());
    for (int64_t i = 0; i < s.length; i++) {
      CHECK(c, one[i] == all[i * n + k], "channel %d frame %lld: %d, alone %d", k, (long long)i, all[i * n + k], one[i]);
      loud += one[i] != 0; differ |= all[i * n + k] != all[i * n];
    }
  }
  if (loud > all.size() / 8) c.nontrivial();
  c.label("channels " + std::to_string(n));
  if (differ) c.label("channels differ");
  if (multi) c.label("multi-channel sample");
}
std::vector<vp::Property> vp_properties() {
  return {{"C05", "random scene with 2 to 8 channels against n one-channel renderings with the volumes (and sample channels) of channel k; exact-size request buffers under AddressSanitizer; non-trivial: more than 1/8 of the samples non-zero", 46000, 460000, test, {}}};
}
VP_MAIN
