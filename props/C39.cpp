#include "common.h"
// C39: sequences and their states on their own: several states share several sequences, step by step.
struct Seq {
  bool env = false; std::vector<BKInt> v, n; int off = 0, len = 0; double unit = 1; int64_t top = 0;   // what it is expected to contain
  BKSequence *s = NULL; int users = 0;
  int size() const { return (int)v.size(); }
};
struct Ref {
  Seq *q = NULL; int phase = BK_SEQUENCE_PHASE_MUTE, pos = 0, left = 0; bool fin = true, again = false, wild = false;
  double v = 0; BKInt end = 0; int64_t err = 0, lost = 0;
  void exact(double x) { v = x; err = lost = 0; wild = false; }
  int setPhase(int p) {
    phase = p; left = 0; fin = false; again = false;
    if (q->env) { if (err || lost) lost++; if (std::fabs(v) > q->top) wild = true; }
    if (p == BK_SEQUENCE_PHASE_MUTE) { fin = true; again = q->env; return BK_SEQUENCE_RETURN_FINISH; }
    pos = p == BK_SEQUENCE_PHASE_ATTACK ? 0 : q->off + q->len;
    if (q->env) return stepEnv();
    if (pos < q->size()) { exact(q->v[pos]); return 0; }
    fin = true;
    return BK_SEQUENCE_RETURN_FINISH;
  }
  int stepSimple() {
    if (fin) return 0;
    int r = BK_SEQUENCE_RETURN_STEP;
    if (phase == BK_SEQUENCE_PHASE_ATTACK && pos >= q->off + q->len) { pos = q->off; r = BK_SEQUENCE_RETURN_REPEAT; }
    if (pos < q->size()) { exact(q->v[pos++]); return r; }
    fin = true;
    return BK_SEQUENCE_RETURN_FINISH;
  }
  int stepEnv() {
    if (fin) return 0;
    int r = BK_SEQUENCE_RETURN_STEP;
    if (left) {
      if (left > 1) { v += (end - v) / left--; err++; return r; }
      left = 0; exact(end); pos++;
    }
    for (;;) {
      if (phase == BK_SEQUENCE_PHASE_ATTACK && pos >= q->off + q->len) { pos = q->off; r = BK_SEQUENCE_RETURN_REPEAT; }
      if (pos >= q->size()) { fin = true; return BK_SEQUENCE_RETURN_FINISH; }
      if (q->n[pos]) { left = q->n[pos]; end = q->v[pos]; return r; }
      exact(q->v[pos++]);
    }
  }
};
struct St { BKSequenceState s; Ref r; };
static void test(Case &c) {
  std::vector<Seq *> seqs; std::vector<St *> st;
  bool shared = false, wrapped = false, done = false, cp = false, rel = false;
  auto keep = new std::vector<std::unique_ptr<Seq>>;                  // outlives a failure, like the states
  auto states = new std::vector<std::unique_ptr<St>>;
  auto create = [&]() {
    keep->emplace_back(new Seq); Seq *q = keep->back().get();
    q->env = c.chance(3, 5);
    int n = c.chance(1, 60) ? (int)c.range(100, 2000) : c.chance(1, 8) ? (int)c.range(0, 1) : (int)c.range(1, 8);
    int64_t big = c.pick({(int64_t)15, (int64_t)16, (int64_t)1000, (int64_t)32767, (int64_t)1 << 20, ((int64_t)1 << 30) - 1});
    if (!q->env && c.chance(1, 4)) big = (1LL << 31) - 1;
    uint32_t fill = c.draw(1 << 30);
    for (int i = 0; i < n; i++) {
      bool drawn = i < 12; fill = fill * 1664525u + 1013904223u;
      q->v.push_back(drawn ? (BKInt)c.edgy(-big, big, {0, 1, -1, big, -big}) : (BKInt)((int64_t)(fill >> 1) % (2 * big + 1) - big));
      if (q->env) q->n.push_back(drawn ? (c.chance(1, 4) ? 0 : c.chance(1, 40) ? (BKInt)c.logRange(1000, 1 << 20) : (BKInt)c.logRange(1, 60)) : (BKInt)(fill >> 13) % 5);
    }
    BKUInt off = c.chance(1, 6) ? (BKUInt)c.edgy(0, UINT32_MAX, {n, n + 1LL, UINT32_MAX, 1LL << 31}) : (BKUInt)c.range(0, n);
    BKUInt len = c.chance(1, 6) ? (BKUInt)c.edgy(0, UINT32_MAX, {n, n + 1LL, UINT32_MAX, 1LL << 31}) : (BKUInt)c.range(0, n);
    q->off = (int)std::min<BKUInt>(off, n); q->len = (int)std::min<BKUInt>(len, n - q->off);
    int64_t m = 15, sum = 0; for (BKInt x : q->v) m = std::max<int64_t>(m, std::llabs((long long)x));
    if (q->env) { q->top = m; int b = 0; while (b < 30 && (1LL << b) <= m) b++; q->unit = 1.0 / (1 << (30 - b)); for (int i = 0; i < q->len; i++) sum += q->n[q->off + i]; }
    std::string d; for (int i = 0; i < n && i < 12; i++) d += (i ? " " : "") + (q->env ? std::to_string(q->n[i]) + ":" : std::string()) + std::to_string(q->v[i]);
    c.note("sequence %d: %s [%s%s] sustain %u+%u", (int)seqs.size(), q->env ? "envelope" : "values", d.c_str(), n > 12 ? " ..." : "", off, len);
    BKSequence *s = NULL; BKInt r;
    if (q->env) {
      BKSequencePhase *raw = (BKSequencePhase *)::malloc(n ? n * sizeof(*raw) : 1); for (int i = 0; i < n; i++) { raw[i].steps = q->n[i]; raw[i].value = q->v[i]; }
      r = BKSequenceCreate(&s, &BKSequenceFuncsEnvelope, raw, n, off, len);
      ::free(raw);
      bool bad = q->off != n && sum == 0;
      CHECK(c, (r == 0) == !bad, "creating an envelope gives %d, %s", r, bad ? "although the sustained part takes no time" : "expected success");
      if (bad) { CHECK(c, s == NULL, "an envelope was created after all"); c.label("refused"); return; }
    } else {
      BKInt *raw = (BKInt *)::malloc(n ? n * sizeof(*raw) : 1); for (int i = 0; i < n; i++) raw[i] = q->v[i];
      r = BKSequenceCreate(&s, &BKSequenceFuncsSimple, raw, n, off, len);
      ::free(raw);
      CHECK(c, r == 0, "creating a sequence gives %d", r);
    }
    CHECK(c, s, "no sequence");
    q->s = s; seqs.push_back(q);
  };
  auto look = [&](const char *w, size_t only) {
    for (size_t i = 0; i < st.size(); i++) {
      Ref &r = st[i]->r; if (r.wild) continue;
      bool sure = !r.err && !r.lost && r.v == std::floor(r.v);
      double tol = sure ? 0 : 2 + r.lost + (r.q ? r.err * r.q->unit : 0);
      CHECK(c, std::fabs(st[i]->s.value - r.v) <= tol, "%s: state %d%s has value %d, expected %.4f%s", w, (int)i, i == only ? "" : " (not touched)", st[i]->s.value, r.v, sure ? "" : " roughly");
    }
  };
  int ns = 1 + c.weighted({4, 3, 2, 1}), ops = (int)c.range(2, 40);
  for (int i = 0; i < ns; i++) { states->emplace_back(new St); St *x = states->back().get(); memset(&x->s, 0, sizeof x->s); st.push_back(x); }
  create();
  for (int i = 0; i < ops; i++) {
    size_t k = c.draw((uint32_t)st.size()); St &x = *st[k]; Ref &r = x.r;
    switch (c.weighted({2, 1, 1, r.q ? 1 : 8, 5, 14, 2})) {
      case 0: if (seqs.size() < 5) create(); break;
      case 1: {                                                                        // copy
        if (seqs.empty() || seqs.size() >= 6) break;
        Seq *q = c.pick(seqs); BKSequence *s = NULL; c.note("copy of a sequence with %d users", q->users);
        CHECK(c, BKSequenceCopy(&s, q->s) == 0 && s && s != q->s, "copy");
        keep->emplace_back(new Seq(*q)); Seq *n = keep->back().get(); n->s = s; n->users = 0; seqs.push_back(n); cp = true;
        break;
      }
      case 2: {                                                                        // dispose
        for (size_t j = 0; j < seqs.size(); j++) if (!seqs[j]->users) { c.note("sequence %d disposed", (int)j); BKSequenceDispose(seqs[j]->s); seqs[j]->s = NULL; seqs.erase(seqs.begin() + j); break; }
        break;
      }
      case 3: {                                                                        // other sequence
        Seq *q = seqs.empty() || (r.q && c.chance(1, 5)) ? NULL : c.pick(seqs);
        c.note("state %d gets %s", (int)k, q ? "a sequence" : "nothing");
        BKInt ret = BKSequenceStateSetSequence(&x.s, q ? q->s : NULL);
        CHECK(c, ret >= 0, "setting a sequence gives %d", ret);
        if (q != r.q) {
          if (r.q) r.q->users--;
          if (r.q && r.q->env && (r.err || r.lost)) { r.lost++; r.lost += (int64_t)(r.err * r.q->unit) + 1; r.err = 0; }
          r.q = q;
          if (q) { if (q->users++) shared = true; int f = r.setPhase(r.phase); CHECK(c, (ret == BK_SEQUENCE_RETURN_FINISH) == (f == BK_SEQUENCE_RETURN_FINISH), "setting a sequence gives %d, %s", ret, r.fin ? "although there is nothing to play" : "although there is something to play"); }
        } else CHECK(c, ret == 0, "setting the same sequence gives %d", ret);
        break;
      }
      case 4: {                                                                        // phase
        int p = c.weighted({2, 6, 5, 1}); if (p == 3) p = c.pick({3, 4, 100, -1});
        c.note("state %d: phase %d", (int)k, p);
        BKInt ret = BKSequenceStateSetPhase(&x.s, (BKEnum)p);
        if (!r.q) { CHECK(c, ret == BK_INVALID_STATE, "phase without sequence gives %d", ret); break; }
        if (p < 0 || p > 2) { CHECK(c, ret == BK_INVALID_ATTRIBUTE, "phase %d gives %d", p, ret); break; }
        int f = r.setPhase(p); if (p == 2) rel = true;
        CHECK(c, (ret == BK_SEQUENCE_RETURN_FINISH) == (f == BK_SEQUENCE_RETURN_FINISH) && ret >= 0, "phase %d gives %d, expected %s", p, ret, f == BK_SEQUENCE_RETURN_FINISH ? "the end" : "to go on");
        break;
      }
      case 5: {                                                                        // steps
        int n = r.left > 1 && c.chance(1, 2) ? r.left + (int)c.range(-1, 1) : (int)c.logRange(1, 60);
        int mix = c.weighted({4, 1, 1});                                               // divided steps, ticks, both
        c.note("state %d: %d steps%s", (int)k, n, mix == 0 ? "" : mix == 1 ? " of ticks" : " of both kinds");
        for (int j = 0; j < n; j++) {
          int level = mix == 0 ? 1 : mix == 1 ? 0 : j % 3 == 0;
          BKInt ret = BKSequenceStateStep(&x.s, (BKEnum)(level ? BK_SEQUENCE_STEP_DIVIDED : BK_SEQUENCE_STEP_MAX));
          if (!r.q) { CHECK(c, ret == BK_INVALID_STATE, "step without sequence gives %d", ret); break; }
          int want = r.q->env ? r.stepEnv() : level ? r.stepSimple() : 0;
          if (want == BK_SEQUENCE_RETURN_REPEAT) wrapped = true;
          if (want == BK_SEQUENCE_RETURN_FINISH) done = true;
          // an envelope which has been muted may report its end once more
          bool ok = ret == want || (r.again && ret == BK_SEQUENCE_RETURN_FINISH); r.again = false;
          CHECK(c, ok, "step %d gives %d, expected %d", j + 1, ret, want);
          if (j < 200 || j > n - 50) look("step", k);
        }
        break;
      }
      default: {
        int64_t top = r.q && r.q->env ? r.q->top : r.q ? (1LL << 31) - 1 : c.pick({15LL, 1000LL, 32767LL});
        BKInt v = (BKInt)c.edgy(-top, top, {0, 1, -1, top, -top});
        c.note("state %d: value %d", (int)k, v);
        CHECK(c, BKSequenceStateSetValue(&x.s, v) == 0, "value"); r.exact(v);
        break;
      }
    }
    look("operation", k);
  }
  for (auto *x : st) { CHECK(c, BKSequenceStateSetSequence(&x->s, NULL) == 0, "clearing a state"); if (x->r.q) x->r.q->users--; }
  for (auto *q : seqs) BKSequenceDispose(q->s);
  if (wrapped && (done || rel)) c.nontrivial();
  if (shared) c.label("shared"); if (cp) c.label("copied"); if (rel) c.label("released");
  delete keep; delete states;
}
std::vector<vp::Property> vp_properties() {
  return {{"C39", "one to four states driven through up to 40 operations with up to six sequences and envelopes of 0 to 2000 values, shared, copied and exchanged; non-trivial: a sustained part started over and a sequence released or played to its end",
    500000, 8000000, test, {}}};
}
VP_MAIN
