#include "common.h"
// C04: additive mixing, order independence, silent sources.
static void test(Case &c) {
  SceneOpts o; o.maxLen = c.thorough ? 6000 : 2500; o.maxSources = 5; o.volume = 0.30; o.keepOne = true; o.attachOps = c.chance(1, 3);
  Scene s = genScene(c, o);
  describe(c, s);
  int ns = (int)s.sources.size();
  // a silent track attached first keeps the stream and the master clock (which the first track starts) the same everywhere
  { SourceSpec quiet; quiet.track = true; quiet.wave = BK_SQUARE; s.sources.push_back(quiet); }
  std::vector<int> plain = {ns}; for (int i = 0; i < ns; i++) plain.push_back(i);
  Frames mix; { Player p(s); p.attachOrder = plain; p.setup(); p.run(mix, [](int64_t n) { return n; }); CHECK(c, p.err.empty(), "%s", p.err.c_str()); }
  int variant = c.draw(3);
  if (variant == 0 || ns < 2) {
    // sum of the parts. A silent source is kept in every part so that the stream is always running
    std::vector<double> sum(mix.size(), 0);
    int peak = 0;
    for (auto x : mix) peak = std::max(peak, std::abs((int)x));
    bool clipped = peak >= 32767;
    for (int i = 0; i < ns; i++) {
      Player p(s); p.only = {i, ns}; p.attachOrder = plain; p.setup();
      Frames f; p.run(f, [](int64_t n) { return n; });
      CHECK(c, p.err.empty() && f.size() == mix.size(), "source %d alone gave %zu of %zu samples", i, f.size(), mix.size());
      for (size_t k = 0; k < f.size(); k++) { sum[k] += f[k]; if (std::abs((int)f[k]) >= 32767) clipped = true; }
    }
    if (!clipped) {
      // each part is rounded towards minus infinity and its high-pass rounds separately: the latter may add up to 2^9/2^14 of a unit per sample
      double tol = ns + 1;
      for (size_t k = 0; k < mix.size(); k++)
        CHECK(c, std::fabs(sum[k] - mix[k]) <= tol, "mix of %d sources differs from the sum of the parts at sample %zu (frame %zu): %d vs %.0f", ns, k, k / s.channels, mix[k], sum[k]);
      if (ns >= 2 && energy(mix) > mix.size() / 8) c.nontrivial();
      c.label("sum of parts");
    } else c.label("clipped");
  } else if (variant == 1) {
    // attachment order
    std::vector<int> ord; for (int i = 0; i < ns; i++) ord.push_back(i);
    for (int i = ns - 1; i > 0; i--) std::swap(ord[i], ord[c.draw(i + 1)]);
    std::string d; for (int i : ord) d += " " + std::to_string(i);
    c.note("attached in the order%s", d.c_str());
    ord.insert(ord.begin(), ns); Player p(s); p.attachOrder = ord; p.setup();
    Frames f; p.run(f, [](int64_t n) { return n; });
    size_t k = firstDiff(f, mix);
    CHECK(c, f.size() == mix.size() && k == f.size(), "attachment order changes sample %zu: %s vs %s", k, framesStr(f.data() + k, f.size() - k, 8).c_str(), framesStr(mix.data() + k, mix.size() - k, 8).c_str());
    if (energy(mix) > mix.size() / 8) c.nontrivial();
    c.label("order");
  } else {
    // adding sources which are silent changes nothing
    Scene t = s;
    int extra = (int)c.range(1, 3);
    for (int i = 0; i < extra; i++) {
      SourceSpec q; int kind = c.draw(5);
      auto add = [&](OpKind k, BKEnum a, std::vector<int> v) { Op op; op.kind = k; op.attr = a; op.target = (int)t.sources.size(); op.v = v; q.init.push_back(op); };
      q.wave = c.pick({(BKEnum)BK_SQUARE, (BKEnum)BK_SINE, (BKEnum)BK_NOISE, (BKEnum)BK_TRIANGLE});
      if (kind == 0) { q.track = false; add(OP_ATTR, BK_VOLUME, {BK_MAX_VOLUME / 4}); add(OP_ATTR, BK_PERIOD, {FU * 3}); add(OP_ATTR, BK_MUTE, {1}); }
      else if (kind == 1) { q.track = false; add(OP_ATTR, BK_VOLUME, {0}); add(OP_ATTR, BK_PERIOD, {FU * 2}); add(OP_ATTR, BK_MUTE, {0}); }
      else if (kind == 2) { q.track = true; add(OP_ATTR, BK_MASTER_VOLUME, {0}); add(OP_ATTR, BK_NOTE, {noteVal(c)}); }
      else if (kind == 3) { q.track = true; add(OP_ATTR, BK_MASTER_VOLUME, {BK_MAX_VOLUME / 4}); }
      else { q.track = true; q.attached = false; add(OP_ATTR, BK_MASTER_VOLUME, {BK_MAX_VOLUME / 4}); add(OP_ATTR, BK_NOTE, {noteVal(c)}); }
      t.sources.push_back(q);
      c.note("extra silent source kind %d %s", kind, attrName(q.wave));
    }
    Player p(t);
    // at a random place in the attachment order
    std::vector<int> ord; for (int i = 0; i < (int)t.sources.size(); i++) ord.push_back(i);
    ord.erase(ord.begin() + ns);
    for (int i = (int)ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[c.draw(i + 1)]);
    ord.insert(ord.begin(), ns);
    p.attachOrder = ord; p.setup();
    Frames f; p.run(f, [](int64_t n) { return n; });
    size_t k = firstDiff(f, mix);
    CHECK(c, f.size() == mix.size() && k == f.size(), "silent sources change sample %zu: %s vs %s", k, framesStr(f.data() + k, f.size() - k, 8).c_str(), framesStr(mix.data() + k, mix.size() - k, 8).c_str());
    if (energy(mix) > mix.size() / 8) c.nontrivial();
    c.label("silent sources");
  }
}
std::vector<vp::Property> vp_properties() {
  return {{"C04", "random scene with up to 5 sources: mix against the sum of the parts, permuted attachment order, added silent sources; non-trivial: two sources or a permutation or silent additions, and more than 1/8 of the samples non-zero", 73000, 730000, test, {}}};
}
VP_MAIN
