#include "common.h"
#include <thread>
#include <atomic>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
// C30: status names and failure values.
static const int DOC[] = {BK_ALLOCATION_ERROR, BK_INVALID_ATTRIBUTE, BK_INVALID_VALUE, BK_INVALID_STATE, BK_INVALID_NUM_CHANNELS, BK_INVALID_NUM_FRAMES, BK_INVALID_NUM_BITS, BK_INVALID_RETURN_VALUE, BK_FILE_ERROR, BK_FILE_NOT_READABLE_ERROR, BK_FILE_NOT_WRITABLE_ERROR, BK_FILE_NOT_SEEKABLE_ERROR, BK_OTHER_ERROR};
static bool documented(int r) { if (r == BK_SUCCESS) return true; for (int d : DOC) if (d == r) return true; return false; }
static void exhaustive(Case &c) {
  std::set<std::string> names;
  for (int d : DOC) {
    const char *n = BKStatusGetName(d);
    CHECK(c, n && *n, "status %d has no name", d);
    CHECK(c, names.insert(n).second, "status %d shares its name '%s'", d, n);
  }
  // every 32-bit value
  std::atomic<int64_t> bad{INT64_MIN};
  const char *unknown = BKStatusGetName(1);
  CHECK(c, unknown && *unknown, "status 1 has no name");
  CHECK(c, !names.count(unknown), "an undocumented status has the documented name '%s'", unknown);
  std::vector<std::thread> th;
  for (int k = 0; k < 8; k++) th.emplace_back([&, k] {
    for (int64_t v = (int64_t)k << 29; v < (int64_t)(k + 1) << 29; v++) {
      const char *n = BKStatusGetName((BKEnum)v);
      if (n == unknown) continue;
      if (!n || !*n || strlen(n) > 200 || (strcmp(n, unknown) != 0 && !documented((int)v))) { bad = v; return; }
    }
  });
  for (auto &t : th) t.join();
  if (bad != INT64_MIN) { const char *n = BKStatusGetName((BKEnum)(int64_t)bad); c.fail("status %lld: %s", (long long)bad, n ? n : "NULL"); }
  c.nontrivial();
}
// calls that may fail, with arguments of every kind
static void test(Case &c) {
  auto num = [&]() -> int64_t { return c.edgy(INT32_MIN, INT32_MAX, {0, 1, -1, 2, 8, 9, 16, 4096, 65536}); };
  BKContext ctx; BKTrack t; BKUnit u; BKData d; BKInstrument in; BKClock ck; BKDivider dv;
  int nch = (int)c.range(1, 3);
  int r = BKContextInit(&ctx, nch, 44100) | BKTrackInit(&t, BK_SQUARE) | BKUnitInit(&u, BK_SQUARE) | BKDataInit(&d) | BKInstrumentInit(&in) | BKClockInit(&ck, mkTime(100), NULL) | BKDividerInit(&dv, 3, NULL);
  CHECK(c, r == 0, "init");
  void *objs[] = {&ctx, &t, &u, &d, &in, &ck, &dv, NULL};
  const char *on[] = {"context", "track", "unit", "data", "instrument", "clock", "divider", "NULL"};
  int n = (int)c.range(1, 10), failures = 0;
  auto ret = [&](const char *what, int r, bool count = true) {
    CHECK(c, documented(r) || r == -1, "%s returned the undocumented status %d", what, r);
    const char *s = BKStatusGetName(r);
    CHECK(c, s && *s, "%s: status %d has no name", what, r);
    const char *s2 = BKStatusGetName(r);
    CHECK(c, s == s2 || !strcmp(s, s2), "%s: the name of status %d changes", what, r);
    if (r) failures++;
  };
  for (int i = 0; i < n; i++) {
    int k = (int)c.draw(8);
    BKEnum attr = c.chance(1, 4) ? (BKEnum)num() : (BKEnum)((1 << 12) + c.draw(6) * (1 << 12) + c.draw(48));
    switch (c.draw(9)) {
      case 0: {
        int64_t v = num();
        // dividers and clocks of zero or negative counts are outside their documented domain
        if (attr == BK_PERIOD || attr == BK_ARPEGGIO_DIVIDER || attr == BK_EFFECT_DIVIDER || attr == BK_INSTRUMENT_DIVIDER) v = 1 + (v & 15);
        c.note("set %s attr %u (%s) = %lld", on[k], attr, attrName(attr), (long long)v); ret("BKSetAttr", BKSetAttr(objs[k], attr, (BKInt)v)); break;
      }
      case 1: { BKInt v = 0; c.note("get %s attr %u (%s)", on[k], attr, attrName(attr)); ret("BKGetAttr", BKGetAttr(objs[k], attr, &v)); break; }
      case 2: { c.note("set ptr %s %u (%s) zeroed", on[k], attr, attrName(attr)); void *p[16] = {0}; if (attr == BK_CLOCK_PERIOD) { BKTime v = mkTime(50); memcpy(p, &v, sizeof v); } if (attr == BK_PULSE_KERNEL || attr == BK_INSTRUMENT || attr == BK_WAVEFORM || attr == BK_SAMPLE) ret("BKSetPtr", BKSetPtr(objs[k], attr, NULL, sizeof(void *))); else ret("BKSetPtr", BKSetPtr(objs[k], attr, p, 3 * sizeof(BKInt))); break; }
      case 3: { c.note("get ptr %s %u (%s) zeroed", on[k], attr, attrName(attr)); void *p[64] = {0}; ret("BKGetPtr", BKGetPtr(objs[k], attr, p, 3 * sizeof(BKInt))); break; }
      case 4: { int64_t ch = num(); BKContext x; c.note("context with %lld channels", (long long)ch); memset(&x, 0, sizeof x); int q = BKContextInit(&x, (BKInt)ch, (BKInt)num()); ret("BKContextInit", q); if (!q) BKDispose(&x); break; }
      case 5: { Frames f(64, 5); int64_t nf = c.range(0, 32), nc = c.pick({1, 0, 2, 9, -1}); if (nc > 0 && nf * nc > 64) nf = 64 / nc; c.note("set %lld frames, %lld channels", (long long)nf, (long long)nc); ret("BKDataSetFrames", BKDataSetFrames(&d, f.data(), (BKUInt)nf, (BKUInt)nc, 1)); break; }
      case 6: { uint8_t b[64] = {0}; int64_t sz = c.range(0, 64); BKEnum par = (BKEnum)c.draw(24) | (c.draw(4) << 16); c.note("set data of %lld bytes params %x", (long long)sz, par); ret("BKDataSetData", BKDataSetData(&d, b, (BKUInt)sz, (BKUInt)c.range(0, 10), par)); break; }
      case 7: {
        uint8_t b[32]; int sz = (int)c.range(0, 32); for (int q = 0; q < sz; q++) b[q] = (uint8_t)c.draw(256);
        FILE *f = tmpfile(); fwrite(b, 1, sz, f); rewind(f); c.note("load WAVE of %d bytes", sz); ret("BKDataLoadWAVE", BKDataLoadWAVE(&d, f)); fclose(f); break;
      }
      default: {
        int w = c.draw(5); c.note("attach/sequence call %d", w);
        if (w == 0) ret("BKUnitAttach", BKUnitAttach(&u, &ctx));
        else if (w == 1) ret("BKTrackAttach", BKTrackAttach(&t, &ctx));
        else if (w == 2) ret("BKClockAttach", BKClockAttach(&ck, &ctx, NULL));
        else if (w == 3) { BKInt v[3] = {1, 2, 3}; int slot = (int)c.range(0, 6); ret("BKInstrumentSetSequence", BKInstrumentSetSequence(&in, slot, v, c.range(0, 3), c.range(0, 4), c.range(0, 4))); }
        else { BKSequencePhase ph[2] = {{(BKUInt)c.range(0, 2), 5}, {(BKUInt)c.range(0, 2), 9}}; ret("BKInstrumentSetEnvelope", BKInstrumentSetEnvelope(&in, (BKEnum)c.range(0, 6), ph, c.range(0, 2), c.range(0, 3), c.range(0, 3))); }
        break;
      }
    }
  }
  BKDispose(&t); BKDispose(&u); BKDispose(&in); BKDispose(&ck); BKDispose(&dv); BKDispose(&d); BKDispose(&ctx);
  if (failures) c.nontrivial();
}
std::vector<vp::Property> vp_properties() {
  vp::Property p{"C30", "all 2^32 status values looked up (fixed scenario); random calls with valid and invalid arguments on every object kind return zero, documented statuses or -1; non-trivial: at least one call failed", 89000, 890000, test, {}};
  p.fixed.push_back(exhaustive); p.cpuLimit = 300;
  return {p};
}
VP_MAIN
