// C32: the library built with the representation of time of 32-bit targets ({frames, fraction}) behaves the same: the
// checks which depend on time run against such a build, and its time arithmetic against exact integers. check.sh compiles
// the library with src/narrow.h; VP_NARROW makes the included checks use it.
#define VP_NARROW
#include "common.h"
#include "model.h"
#include "track.h"
namespace c01 {
#include "C01.cpp"
}
namespace c02 {
#include "C02.cpp"
}
namespace c06 {
#include "C06.cpp"
}
namespace c16 {
#include "C16.cpp"
}
namespace c17 {
#include "C17.cpp"
}
namespace c18 {
#include "C18.cpp"
}
namespace c24 {
#include "C24.cpp"
}
namespace c28 {
#include "C28.cpp"
}
namespace c31 {
#include "C31.cpp"
}
struct NT { BKInt t; BKFUInt20 f; };
extern "C" {
void nt_make(BKInt s, BKFUInt20 u, NT *r);
void nt_op(int k, const NT *a, const NT *b, BKFUInt20 u, NT *r);
int nt_cmp(int k, const NT *a, const NT *b, BKFUInt20 u);
BKInt nt_time(const NT *a); BKFUInt20 nt_frac(const NT *a); BKFUInt20 nt_short(const NT *a);
void nt_seconds(BKContext *ctx, double s, NT *r);
}
static void arithmetic(Case &c) {
  typedef __int128 I;
  const int64_t lim = (1LL << 31) - 1;
  auto tm = [&](int64_t bound) { int64_t fr = c.chance(1, 3) ? c.logRange(0, bound) : c.edgy(-bound, bound, {0, 1, -1, 4095, 4096, bound}); return fr * FU + c.edgy(0, FU - 1, {0, 1, FU - 1, FU / 2}); };
  // half the range each, so that sums and differences have room
  int64_t A = tm(lim / 2 - 5000), B = c.chance(1, 3) ? A + c.range(-2, 2) : tm(lim / 2 - 5000);
  if (c.chance(1, 6)) B = A;
  BKFUInt20 u = (BKFUInt20)c.edgy(0, UINT32_MAX, {0, 1, FU - 1, FU, FU + 1, (1LL << 31) - 1, 1LL << 31, UINT32_MAX});
  if (c.chance(1, 4) && A >= 0 && A <= UINT32_MAX) u = (BKFUInt20)std::max<int64_t>(0, A + c.range(-1, 1));
  auto in = [](int64_t v) { NT n = {(BKInt)(v >> 20), (BKFUInt20)(v & (FU - 1))}; return n; };
  auto st = [](int64_t v) { char b[64]; snprintf(b, sizeof b, "%lld+%u/2^20", (long long)(v >> 20), (unsigned)(v & (FU - 1))); return std::string(b); };
  c.note("a %s b %s u %u", st(A).c_str(), st(B).c_str(), u);
  NT a = in(A), b = in(B), r;
  auto eq = [&](const char *w, const NT &n, int64_t want) { NT e = in(want); CHECK(c, n.t == e.t && n.f == e.f, "%s is %d+%u/2^20, expected %s", w, n.t, n.f, st(want).c_str()); };
  BKInt smp = (BKInt)(A >> 20);
  nt_make(smp, u, &r); eq("make", r, (int64_t)smp * FU + u);
  nt_make(smp, u & (FU - 1), &r); eq("make (fraction)", r, (int64_t)smp * FU + (u & (FU - 1)));
  nt_op(0, &a, &b, u, &r); eq("a + b", r, A + B);
  nt_op(1, &a, &b, u, &r); eq("a - b", r, A - B);
  nt_op(2, &a, &b, u, &r); eq("a + u", r, A + (int64_t)u);
  nt_op(3, &a, &b, u, &r); eq("a - u", r, A - (int64_t)u);
  nt_op(4, &a, &b, u, &r); eq("zero", r, 0);
  nt_op(5, &a, &b, u, &r); CHECK(c, nt_cmp(4, &a, &r, 0) && nt_cmp(2, &r, &b, 0), "the greatest time %d+%u/2^20 is not the greatest", r.t, r.f);
  bool want[7] = {A == B, A > B, A >= B, A < B, A <= B, A > (int64_t)u, A < (int64_t)u};
  const char *nm[7] = {"a == b", "a > b", "a >= b", "a < b", "a <= b", "a > u", "a < u"};
  for (int k = 0; k < 7; k++) CHECK(c, !!nt_cmp(k, &a, &b, u) == want[k], "%s gives %d", nm[k], !want[k]);
  CHECK(c, nt_time(&a) == (BKInt)(A >> 20) && nt_frac(&a) == (BKFUInt20)(A & (FU - 1)), "parts of a");
  if (A >= 0 && A <= UINT32_MAX) CHECK(c, nt_short(&a) == (BKFUInt20)A, "short form of a is %u", nt_short(&a));
  BKContext ctx; int rate = c.pick({44100, 48000, 16000, 96000});
  CHECK(c, BKContextInit(&ctx, 1, rate) == 0, "init");
  double any = c.range(0, 6LL * 3600 * 1000000) / 1e6 + c.range(0, 1000) / 1e9;
  if (any * rate < lim) {
    nt_seconds(&ctx, any, &r);
    long double w = (long double)any * rate, g = r.t + r.f / (long double)FU;
    CHECK(c, r.f < (BKFUInt20)FU && fabsl(g - w) * FU <= 1 + w * FU * 0x1p-50L, "%.9f s at %d Hz is %d+%u/2^20, expected %.7Lf", any, rate, r.t, r.f, w);
  }
  BKDispose(&ctx);
  if (A != B && u) c.nontrivial();
}
static void test(Case &c) {
  switch (c.weighted({3, 3, 3, 1, 6, 2, 2, 2, 1, 3})) {
    case 0: c.label("requests in pieces (C01)"); c01::test(c); break;
    case 1: c.label("up to a time (C02)"); c02::test(c); break;
    case 2: c.label("clocks and dividers (C17)"); c17::test(c); break;
    case 3: c.label("waveforms (C06)"); c06::test(c); break;
    case 4: c.label("time arithmetic (C27)"); arithmetic(c); break;
    case 5: c.label("reset (C24)"); c24::test(c); break;
    case 6: c.label("attachment (C28)"); c28::test(c); break;
    case 7: c.label("tracks (C31)"); c31::test(c); break;
    case 8: c.label("envelopes (C16)"); c16::test(c); break;
    default: c.label("samples (C18)"); c18::test(c); break;
  }
}
std::vector<vp::Property> vp_properties() {
  return {{"C32", "histories of the checks named by the labels, run on a build with the 32-bit representation of time, and its arithmetic on times within half of +-2^31 frames; non-trivial: as in those checks", 80000, 800000, test, {}}};
}
VP_MAIN_NOW
