#include "common.h"
#include "wave.h"
// C22: the WAVE reader on arbitrary bytes.
struct Parsed { bool ok = false; int channels = 0, rate = 0, bits = 0; int64_t frames = 0; Frames values; };
// what the bytes from `pos` on say
static Parsed parse(const Bytes &b, size_t pos) {
  Parsed r;
  auto have = [&](size_t n) { return pos + n <= b.size(); };
  if (!have(12) || memcmp(&b[pos], "RIFF", 4) || memcmp(&b[pos + 8], "WAVE", 4)) return r;
  pos += 12;
  if (!have(24) || memcmp(&b[pos], "fmt ", 4)) return r;
  const uint8_t *f = &b[pos];
  uint64_t size = le32(f + 4);
  if (size < 16 || le16(f + 8) != 1) return r;
  r.channels = le16(f + 10); r.rate = (int)le32(f + 12); r.bits = le16(f + 22);
  if ((r.bits != 8 && r.bits != 16) || !r.channels) return r;
  uint64_t p = pos + 8 + size + (size & 1);
  while (1) {
    if (p + 8 > b.size()) return r;
    size = le32(&b[p + 4]);
    if (!memcmp(&b[p], "data", 4)) break;
    p += 8 + size + (size & 1);
  }
  p += 8;
  uint64_t avail = b.size() - p, data = size ? size : avail;
  int w = r.bits / 8;
  if (data / w > INT32_MAX) return r;
  r.ok = true;
  r.frames = (int64_t)(data / w / r.channels);
  for (uint64_t i = 0; i < (uint64_t)r.frames * r.channels; i++) {
    uint64_t q = p + i * w;
    BKFrame v = 0;
    if (q + w <= b.size()) v = r.bits == 16 ? (BKFrame)le16(&b[q]) : (BKFrame)((b[q] - 128) * 256);
    r.values.push_back(v);
  }
  return r;
}
static const uint32_t MAXDATA = 1 << 20;
static void test(Case &c) {
  Bytes b;
  int prefix = c.chance(1, 5) ? (int)c.range(1, 20) : 0;
  for (int i = 0; i < prefix; i++) b.push_back((uint8_t)c.draw(256));
  bool mutated = false;
  int style = c.weighted({1, 12});
  if (style == 0) { int n = (int)c.range(0, 200); for (int i = 0; i < n; i++) b.push_back((uint8_t)c.draw(256)); mutated = true; c.label("random bytes"); }
  else {
    int channels = (int)c.pick({1, 2, 1, 3, 8, 9, 0, 300}), bits = (int)c.pick({16, 8, 16, 8, 12, 24, 0}), rate = (int)c.edgy(0, 200000, {44100});
    int format = c.chance(1, 12) ? (int)c.range(0, 5) : 1;
    putId(b, c.chance(1, 30) ? "RIFX" : "RIFF"); put32(b, (uint32_t)c.edgy(0, UINT32_MAX, {36, UINT32_MAX})); putId(b, c.chance(1, 30) ? "AVI " : "WAVE");
    auto junk = [&](int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(n < 8 ? c.draw(256) : i * 7)); };
    auto extra = [&] {
      static const char *ids[] = {"LIST", "fact", "cue ", "junk", "dat ", "DATA"};
      int n = (int)c.range(0, 30);
      putId(b, ids[c.draw(6)]);
      int64_t claim = n;
      if (c.chance(1, 12)) { claim = c.pick({(int64_t)UINT32_MAX, (int64_t)INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)n + 1, (int64_t)0, (int64_t)n + 100, (int64_t)4294967286LL}); mutated = true; }
      put32(b, (uint32_t)claim); junk(n);
      if (n & 1) { if (c.chance(1, 20)) mutated = true; else b.push_back(0); }
      c.label("extra chunk");
    };
    if (c.chance(1, 20)) { extra(); mutated = true; }     // before the format
    int ext = c.chance(1, 4) ? (int)c.pick({2, 24, 1, 7}) : 0;
    int64_t fsize = 16 + ext;
    if (c.chance(1, 20)) { fsize = c.edgy(0, UINT32_MAX, {0, 15, 17, INT32_MAX, (int64_t)INT32_MAX + 1, UINT32_MAX}); mutated = true; }
    putId(b, c.chance(1, 30) ? "fmt\0" : "fmt "); put32(b, (uint32_t)fsize); put16(b, format); put16(b, channels); put32(b, rate); put32(b, rate * channels * bits / 8); put16(b, channels * bits / 8); put16(b, bits);
    junk(ext); if (ext & 1) b.push_back(0);
    if (ext) c.label("extended format chunk");
    int ne = c.weighted({4, 2, 1}); for (int i = 0; i < ne; i++) extra();
    int w = bits == 8 ? 1 : 2, n = (int)(c.chance(1, 150) ? c.logRange(1000, 80000) : c.chance(1, 8) ? c.range(0, 3000) : c.range(0, 60)) * w;
    if (c.chance(1, 3)) n = n / (w * std::max(1, channels)) * (w * std::max(1, channels));
    int64_t claim = n;
    if (c.chance(1, 3)) { claim = c.pick({(int64_t)0, (int64_t)n + 1, (int64_t)n + c.range(1, 5000), (int64_t)std::max(0, n - 1), (int64_t)UINT32_MAX, (int64_t)MAXDATA, (int64_t)n / 2}); if (claim > n) mutated = true; }
    if (!c.chance(1, 25)) { putId(b, "data"); put32(b, (uint32_t)claim); junk(n); if (n & 1 && c.flip()) b.push_back(0); }
    if (c.chance(1, 4)) extra();
    if (c.chance(1, 4)) { size_t cut = (size_t)c.range(prefix, (int64_t)b.size()); b.resize(cut); mutated = true; c.label("truncated"); }
    int flips = c.chance(1, 4) ? (int)c.range(1, 4) : 0;
    for (int i = 0; i < flips && (int)b.size() > prefix; i++) { size_t at = c.flip() ? (size_t)c.range(prefix, std::min<int64_t>((int64_t)b.size() - 1, prefix + 60)) : (size_t)c.range(prefix, (int64_t)b.size() - 1); b[at] = (uint8_t)c.edgy(0, 255, {0, 255, 128, 127}); mutated = true; }
  }
  // a data size far beyond the file only costs the memory it declares: not explored above 1 MB, except where it must be refused
  Parsed want;
  {
    uint64_t declared = 0; size_t p = prefix;
    for (; p + 8 <= b.size(); p++) if (!memcmp(&b[p], "data", 4)) { uint64_t d = le32(&b[p + 4]); if (d > MAXDATA) declared = d; }
    if (declared) for (p = prefix; p + 8 <= b.size(); p++) if (!memcmp(&b[p], "data", 4) && le32(&b[p + 4]) > MAXDATA && le32(&b[p + 4]) != UINT32_MAX) { b[p + 6] = 0; b[p + 7] = 0; }
    // 8-bit files may declare all of it
    if (declared) { Bytes t = b; bool eight = t.size() >= (size_t)prefix + 36 && le16(&t[prefix + 34]) != 8; if (eight) for (p = prefix; p + 8 <= b.size(); p++) if (!memcmp(&b[p], "data", 4)) b[p + 7] = b[p + 6] = 0; }
    want = parse(b, prefix);
  }
  std::string d; for (size_t i = 0; i < b.size() && i < 120; i++) { char x[8]; if (b[i] >= 32 && b[i] < 127) snprintf(x, 8, "%c", b[i]); else snprintf(x, 8, "\\x%02x", b[i]); d += x; }
  c.note("%zu bytes, read from %d: %s", b.size(), prefix, d.c_str());
  FILE *f = memFile(b, c.flip() ? "rb" : "r+b"); CHECK(c, f, "memfd");
  fseek(f, prefix, SEEK_SET);
  if (c.flip()) {
    BKWaveFileReader r; BKInt nc = -7, sr = -7, nf = -7;
    CHECK(c, BKWaveFileReaderInit(&r, f) == 0, "init");
    int q = BKWaveFileReaderReadHeader(&r, &nc, &sr, &nf);
    CHECK(c, (q == 0) == want.ok, "header %s, but the bytes are %s", q == 0 ? "accepted" : "refused", want.ok ? "valid" : "not valid");
    if (want.ok) {
      CHECK(c, nc == want.channels && nf == want.frames && sr == want.rate, "header says %d channels, %d Hz, %d frames; expected %d, %d, %lld", nc, sr, nf, want.channels, want.rate, (long long)want.frames);
      if (sr && c.chance(1, 4)) {
        BKInt v[3] = {-7, -7, -7}; int again = BKWaveFileReaderReadHeader(&r, &v[0], &v[1], &v[2]);
        CHECK(c, again == 0 && v[0] == nc && v[1] == sr && v[2] == nf, "asking for the header again gives %d: %d channels, %d Hz, %d frames", again, v[0], v[1], v[2]);
      }
      size_t n = (size_t)nf * nc;
      BKFrame *o = (BKFrame *)::malloc(n ? n * 2 : 1);
      memset(o, 0x3c, n ? n * 2 : 1);
      CHECK(c, BKWaveFileReaderReadFrames(&r, o) == 0, "frames");
      for (size_t i = 0; i < n; i++) CHECK(c, o[i] == want.values[i], "value %zu: %d, in the file %d", i, o[i], want.values[i]);
      ::free(o);
    } else CHECK(c, nc == -7 && sr == -7 && nf == -7, "results were written although the header was refused");
    BKDispose(&r);
    c.label("reader");
  } else {
    BKData da; BKDataInit(&da);
    Frames old = {1, 2, 3, 4, 5, 6}; bool had = c.flip();
    if (had) BKDataSetFrames(&da, old.data(), 3, 2, c.flip());
    bool loads = want.ok && want.frames >= 2 && want.channels <= 8;
    int q = BKDataLoadWAVE(&da, f);
    BKInt nf = -1, nc = -1; BKGetAttr(&da, BK_NUM_FRAMES, &nf); BKGetAttr(&da, BK_NUM_CHANNELS, &nc);
    CHECK(c, (q == 0) == loads && q <= 0, "loading gives %d, but the bytes are %s", q, loads ? "valid" : "not usable");
    if (loads) {
      CHECK(c, nf == want.frames && nc == want.channels, "loaded %d frames, %d channels", nf, nc);
      for (size_t i = 0; i < want.values.size(); i++) CHECK(c, da.frames[i] == want.values[i], "value %zu: %d, in the file %d", i, da.frames[i], want.values[i]);
    } else {
      CHECK(c, nf == (had ? 3 : 0) && (!had || (nc == 2 && !memcmp(da.frames, old.data(), 12))), "a failed load changed the data object: %d frames", nf);
    }
    BKDispose(&da);
    CHECK(c, vp_live == 0, "%ld blocks left", vp_live);
    c.label("loader");
  }
  fclose(f);
  if (want.ok || b.size() >= (size_t)prefix + 36) c.nontrivial();
  c.label(want.ok ? "valid header" : "invalid header"); if (mutated) c.label("mutated");
}
std::vector<vp::Property> vp_properties() {
  return {{"C22", "WAVE files built from chunks (extra, extended, oversized, padded or not), truncated and byte-mutated, and random bytes, against an independent parser, through reader and loader under AddressSanitizer; declared data sizes up to 1 MB beyond the file and 2^32-1; non-trivial: reaches the format chunk", 400000, 4000000, test, {}}};
}
VP_MAIN
