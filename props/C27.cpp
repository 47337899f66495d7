#include "common.h"
// C27: time arithmetic against exact integers.
typedef __int128 I;
static std::string s128(I v) { char b[64]; snprintf(b, sizeof b, "%lld.%06llu", (long long)(v >> 20), (unsigned long long)(v & (FU - 1))); return b; }
static void test(Case &c) {
  // many hours at 96 kHz: 2^31 frames are more than six hours
  auto tm = [&]() -> BKTime {
    int64_t fr = c.edgy(-(1LL << 31), (1LL << 31) - 1, {0, 1, -1, 2047, 2048, 4095, 4096, (1LL << 31) - 1});
    if (c.chance(1, 3)) fr = c.logRange(0, (1LL << 31) - 1);
    return (BKTime)fr * FU + c.edgy(0, FU - 1, {0, 1, FU - 1, FU / 2});
  };
  auto u20 = [&]() -> BKFUInt20 { return (BKFUInt20)c.edgy(0, UINT32_MAX, {0, 1, FU - 1, FU, FU + 1, (1LL << 31) - 1, 1LL << 31, UINT32_MAX}); };
  BKTime a = tm(), b = c.chance(1, 3) ? a + c.range(-2, 2) : tm();
  if (c.chance(1, 6)) b = a;
  BKFUInt20 u = u20();
  if (c.chance(1, 4) && a >= 0 && a <= UINT32_MAX) u = (BKFUInt20)(a + c.range(-1, 1));
  BKInt smp = (BKInt)c.edgy(INT32_MIN, INT32_MAX, {0, 1, -1, 2047, 2048, -2048, INT32_MAX, INT32_MIN});
  c.note("a %s b %s u %u samples %d", s128(a).c_str(), s128(b).c_str(), u, smp);
  I A = a, B = b, U = u;
  auto eq = [&](const char *w, I got, I want) { CHECK(c, got == want, "%s is %s, expected %s", w, s128(got).c_str(), s128(want).c_str()); };
  eq("make", BKTimeMake(smp, u), (I)smp * FU + U);
  eq("make (fraction)", BKTimeMake(smp, u & (FU - 1)), (I)smp * FU + (U & (FU - 1)));
  eq("a + b", BKTimeAdd(a, b), A + B); eq("a - b", BKTimeSub(a, b), A - B);
  eq("a + u", BKTimeAddFUInt20(a, u), A + U); eq("a - u", BKTimeSubFUInt20(a, u), A - U);
  eq("(a + b) - b", BKTimeSub(BKTimeAdd(a, b), b), A);
  eq("whole and fraction", (I)BKTimeGetTime(a) * FU + BKTimeGetFrac(a), A);
  CHECK(c, BKTimeGetFrac(a) < (BKFUInt20)FU, "fraction %u", BKTimeGetFrac(a));
  CHECK(c, BKTimeMake(BKTimeGetTime(a), BKTimeGetFrac(a)) == a, "taking apart and rebuilding changes the time");
  if (A >= 0 && A <= UINT32_MAX) eq("short form", BKTimeGetFUInt20(a), A);
  auto bo = [&](const char *w, int got, bool want) { CHECK(c, !!got == want, "%s gives %d", w, got); };
  bo("a == b", BKTimeIsEqual(a, b), A == B); bo("a > b", BKTimeIsGreater(a, b), A > B); bo("a >= b", BKTimeIsGreaterEqual(a, b), A >= B);
  bo("a < b", BKTimeIsLess(a, b), A < B); bo("a <= b", BKTimeIsLessEqual(a, b), A <= B);
  bo("a > u", BKTimeIsGreaterFUInt20(a, u), A > U); bo("a < u", BKTimeIsLessFUInt20(a, u), A < U);
  bo("zero", BKTimeIsEqual(BK_TIME_ZERO, BKTimeMake(0, 0)), true);
  bo("a <= max", BKTimeIsLessEqual(a, BK_TIME_MAX), true);
  // seconds: exact when the product fits the precision of a double, else within its rounding
  int rate = c.pick({44100, 48000, 16000, 22050, 96000, 32000});
  BKContext ctx;
  CHECK(c, BKContextInit(&ctx, 1, rate) == 0, "init");
  int64_t num = c.edgy(0, 24LL * 3600 * 1024, {0, 1, 1024, 3600 * 1024, 24LL * 3600 * 1024}); int sh = (int)c.range(0, 10);
  double sec = (double)num / (double)(1 << sh);
  if (sh < 10) { while (sec > 24 * 3600.0) sec /= 1024; }
  I exactNum = (I)(int64_t)(sec * (double)(1LL << 40)) * rate;   // seconds are dyadic with at most 20 fractional digits
  BKTime t = BKTimeFromSeconds(&ctx, sec);
  eq("from dyadic seconds", t, exactNum >> 20);
  double any = c.range(0, 24LL * 3600 * 1000000) / 1e6 + c.range(0, 1000) / 1e9;
  long double want = (long double)any * rate * FU;
  BKTime ta = BKTimeFromSeconds(&ctx, any);
  long double tol = 1 + want * 0x1p-50L;
  CHECK(c, fabsl((long double)ta - want) <= tol, "%.9f s at %d Hz is %s, expected %.6Lf frames", any, rate, s128(ta).c_str(), want / FU);
  BKDispose(&ctx);
  if (a != b && u) c.nontrivial();
}
std::vector<vp::Property> vp_properties() {
  return {{"C27", "random and boundary times up to +-2^31 frames, unsigned 32-bit fixed-point operands and seconds up to a day against 128-bit integers; non-trivial: two different times and a non-zero short operand", 1000000, 10000000, test, {}}};
}
VP_MAIN
