#include "common.h"
// C03: rendering is a function of the scene alone.
static Frames renderFill(const Scene &s, int mode, uint64_t seed, bool dirty) {
  vp_set_fill(mode, seed);
  std::vector<void *> junk;
  if (dirty) {                       // recycle memory used by another run
    Scene o = s; o.length = std::min<int64_t>(o.length, 300);
    Player p(o); p.setup(); p.render();
  }
  Frames f; Player p(s); p.setup(); p.run(f, [](int64_t n) { return n; });
  return f;
}
// rendered up to the operations' times; `in` runs inside the writer of blocks
struct Nest { Frames *out; int nch; std::function<void()> in; };
static BKInt nestWrite(BKFrame *f, BKUInt n, void *u) {
  Nest *k = (Nest *)u;
  if (k->in) k->in();
  k->out->insert(k->out->end(), f, f + (size_t)n * k->nch);
  return 0;
}
static void renderTo(Player &p, Frames &out, std::function<void()> in) {
  Nest k{&out, p.sc.channels, in};
  for (;;) {
    while (p.nextOp < p.sc.ops.size() && p.sc.ops[p.nextOp].at <= p.pos) p.apply(p.sc.ops[p.nextOp++]);
    int64_t until = p.sc.length;
    if (p.nextOp < p.sc.ops.size()) until = std::min(until, p.sc.ops[p.nextOp].at);
    if (until <= p.pos) break;
    if (BKContextGenerateToTime(p.ctx, (BKTime)until * FU, nestWrite, &k) < 0) { p.err = "generate to time failed"; break; }
    p.pos = until;
  }
}
static void test(Case &c) {
  SceneOpts o; o.maxLen = c.thorough ? 8000 : 3000;
  Scene s = genScene(c, o);
  SceneOpts o2; o2.maxLen = 2000; o2.maxOps = 6; o2.maxSources = 3;
  Scene t = genScene(c, o2);
  for (Scene *x : {&s, &t}) if (c.chance(1, 12)) x->rate = c.pick({0, -1, 8000, 15999, 96001, 200000}); // taken as the nearest supported
  int variant = c.draw(6);
  int fillA = c.draw(4), fillB = c.draw(4);
  std::vector<int> steps;
  for (int i = 0; i < 6; i++) steps.push_back((int)c.logRange(1, 1500));
  describe(c, s);
  static const char *vn[] = {"other memory contents", "recycled memory", "allocated vs in place", "interleaved with another context", "after another scene in this process", "rendering another inside its callbacks"};
  c.note("variant: %s, fills %d %d", vn[variant], fillA, fillB);
  Frames a = renderFill(s, fillA, 11, false), b;
  switch (variant) {
    case 0: b = renderFill(s, fillB, 99, false); break;
    case 1: b = renderFill(s, fillB, 7, true); break;
    case 2: {
      Scene u = s; u.ctxAlloc = !u.ctxAlloc;
      for (auto &sp : u.sources) sp.alloc = !sp.alloc;
      b = renderFill(u, fillB, 5, false);
      break;
    }
    case 3: {
      c.note("-- other context:"); describe(c, t);
      Frames fb, ft;
      Player p(s), q(t);
      vp_set_fill(fillB, 3);
      if (c.flip()) { q.setup(); p.setup(); } else { p.setup(); q.setup(); }
      // interleave at the granularity of chunks
      size_t k = 0;
      std::function<int64_t(int64_t)> other = [&](int64_t n) { return n; };
      p.run(fb, [&](int64_t n) {
        if (q.pos < t.length && q.err.empty()) {
          int64_t before = q.pos; (void)before;
          // run the other context up to its next position
          while (q.nextOp < t.ops.size() && t.ops[q.nextOp].at <= q.pos) q.apply(t.ops[q.nextOp++]);
          int64_t until = std::min<int64_t>(t.length, q.pos + steps[k % steps.size()]);
          if (q.nextOp < t.ops.size()) until = std::min(until, t.ops[q.nextOp].at);
          if (until > q.pos) q.pos += q.produce(ft, until - q.pos, other);
        }
        return (int64_t)steps[k++ % steps.size()];
      });
      b = fb;
      // the other context is not influenced either
      Frames alone; { Player r(t); r.setup(); r.run(alone, other); }
      size_t m = std::min(ft.size(), alone.size()), d = firstDiff(ft, alone);
      CHECK(c, d >= m, "the other context differs when interleaved, at sample %zu", d);
      break;
    }
    case 5: {
      c.note("-- other context:"); describe(c, t);
      int where = c.draw(3); bool other = c.flip();
      c.note("the other is rendered %s, %s", where == 0 ? "while blocks are written" : where == 1 ? "in divider callbacks" : "while blocks are written and in divider callbacks", other ? "up to a time" : "by frames");
      Frames fb, ft, base, alone;
      { Player p(s); p.setup(); renderTo(p, base, nullptr); }
      Player p(s), q(t);
      vp_set_fill(fillB, 3);
      p.setup(); q.setup();
      size_t k = 0; bool busy = false;
      std::function<int64_t(int64_t)> whole = [&](int64_t n) { return n; };
      Nest qn{&ft, t.channels, nullptr};
      auto step = [&] {
        if (busy || q.pos >= t.length || !q.err.empty()) return;
        busy = true;
        while (q.nextOp < t.ops.size() && t.ops[q.nextOp].at <= q.pos) q.apply(t.ops[q.nextOp++]);
        int64_t until = std::min<int64_t>(t.length, q.pos + steps[k++ % steps.size()]);
        if (q.nextOp < t.ops.size()) until = std::min(until, t.ops[q.nextOp].at);
        if (until > q.pos) {
          if (other) { if (BKContextGenerateToTime(q.ctx, (BKTime)until * FU, nestWrite, &qn) < 0) q.err = "generate to time failed"; q.pos = until; }
          else q.pos += q.produce(ft, until - q.pos, whole);
        }
        busy = false;
      };
      if (where) p.inTick = step;
      renderTo(p, fb, where == 1 ? std::function<void()>() : step);
      a = base; b = fb;
      { Player r(t); r.setup(); if (other) renderTo(r, alone, nullptr); else r.run(alone, whole); }
      size_t m = std::min(ft.size(), alone.size()), d = firstDiff(ft, alone);
      CHECK(c, d >= m, "the other context differs when rendered inside callbacks, at sample %zu", d);
      break;
    }
    default: {
      c.note("-- earlier scene:"); describe(c, t);
      renderFill(t, fillB, 4, false);
      b = renderFill(s, fillB, 21, false);
    }
  }
  size_t d = firstDiff(a, b);
  CHECK(c, a.size() == b.size() && d == a.size(), "%s: %zu and %zu samples, first difference at %zu: %s vs %s", vn[variant], a.size(), b.size(), d,
        framesStr(a.data() + d, a.size() - d, 8).c_str(), framesStr(b.data() + d, b.size() - d, 8).c_str());
  if (energy(a) > a.size() / 8 && s.length > 50) c.nontrivial();
  c.label(vn[variant]);
}
std::vector<vp::Property> vp_properties() {
  return {{"C03", "random scene rendered twice: in differently filled memory, in recycled memory, in allocated or in-place objects, interleaved with another context, after another scene, with another context rendered inside its writer and divider callbacks; non-trivial: over 50 frames and more than 1/8 of the samples non-zero", 78000, 780000, test, {}}};
}
VP_MAIN
