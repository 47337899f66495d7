#include "common.h"
#include <sys/mman.h>
#include <unistd.h>
// C19: raw sample data is decoded faithfully.
struct Fmt { BKEnum p; int bits; bool sign; };
static const Fmt FMT[] = {{BK_1_BIT_UNSIGNED, 1, false}, {BK_2_BIT_UNSIGNED, 2, false}, {BK_4_BIT_UNSIGNED, 4, false}, {BK_8_BIT_SIGNED, 8, true}, {BK_8_BIT_UNSIGNED, 8, false}, {BK_16_BIT_SIGNED, 16, true}};
static std::vector<int> decode(const std::vector<uint8_t> &b, const Fmt &f, BKEnum endian, int channels) {
  std::vector<int> r;
  int64_t total = (int64_t)b.size() * 8 / (f.bits * channels) * channels;
  for (int64_t i = 0; i < total; i++) {
    if (f.bits == 16) {
      int lo = b[i * 2], hi = b[i * 2 + 1];
      if (endian == BK_BIG_ENDIAN) std::swap(lo, hi);
      r.push_back((int16_t)(hi * 256 + lo));
    } else if (f.bits == 8) {
      if (f.sign) { int v = (int8_t)b[i]; if (v == -128) v = -127; r.push_back(v * 32767 / 127); }
      else r.push_back(b[i] * 32767 / 255);
    } else {
      int64_t bit = i * f.bits; int max = (1 << f.bits) - 1;
      int v = (b[bit / 8] >> (8 - f.bits - bit % 8)) & max;
      r.push_back(v * 32767 / max);
    }
  }
  return r;
}
static std::string state(BKData &d) {
  BKInt nf = 0, nc = 0, sp = 0, rg[2] = {0, 0};
  BKGetAttr(&d, BK_NUM_FRAMES, &nf); BKGetAttr(&d, BK_NUM_CHANNELS, &nc); BKGetAttr(&d, BK_SAMPLE_PITCH, &sp); BKGetPtr(&d, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg);
  std::string s = std::to_string(nf) + "x" + std::to_string(nc) + " pitch " + std::to_string(sp) + " sustain " + std::to_string(rg[0]) + "-" + std::to_string(rg[1]) + " ";
  for (int i = 0; i < nf * nc; i++) s += std::to_string(d.frames[i]) + ",";
  return s;
}
static void test(Case &c) {
  BKData d; memset(&d, 0x5a, sizeof d);
  CHECK(c, BKDataInit(&d) == 0, "init");
  if (c.chance(1, 4)) BKSetAttr(&d, BK_SAMPLE_PITCH, (BKInt)c.range(-5, 5) * FU);
  int n = (int)c.range(1, 4); bool good = false;
  Frames borrowed;
  std::vector<std::vector<uint8_t>> keep;
  for (int i = 0; i < n; i++) {
    int kind = c.weighted({7, 2, 2, 1});
    if (kind == 3) { borrowed.assign(8, 77); BKDataSetFrames(&d, borrowed.data(), 4, 2, 0); c.note("frames of the caller"); continue; }
    const Fmt &f = FMT[c.draw(6)];
    BKEnum endian = c.pick({0u, (BKEnum)BK_LITTLE_ENDIAN, (BKEnum)BK_BIG_ENDIAN});
    int channels = (int)c.range(1, 8);
    int minBytes = (2 * channels * f.bits + 7) / 8;
    int size = (int)(c.chance(1, 300) ? c.logRange(1000, 200000) : c.logRange(1, c.thorough ? 2000 : 300));
    if (c.flip()) size += minBytes;
    BKEnum bits = f.p;
    if (kind == 2) { int w = c.draw(3); if (w == 0) channels = (int)c.pick({0, 9, -1, 1000}); else if (w == 1) bits = c.pick({0u, 7u, 8u, 15u}); else size = (int)c.range(0, minBytes - 1); }
    std::vector<uint8_t> b(size);
    int style = c.draw(3); uint32_t x = size > 4000 ? (uint32_t)c.draw(1 << 20) : 0;
    if (size > 4000) for (auto &e : b) e = (uint8_t)((x = x * 1664525u + 1013904223u) >> 24);
    else for (int k = 0; k < size; k++) b[k] = style == 0 ? (uint8_t)c.draw(256) : style == 1 ? c.pick({(uint8_t)0, (uint8_t)255, (uint8_t)128, (uint8_t)127, (uint8_t)1}) : (uint8_t)(k * 37);
    bool file = kind == 1;
    std::string d0; for (int k = 0; k < std::min(size, 16); k++) { char x[4]; snprintf(x, 4, "%02x ", b[k]); d0 += x; }
    c.note("%s %d bytes (%s...), %d channels, params %#x", file ? "load" : "set", size, d0.c_str(), channels, bits | endian);
    bool valid = channels >= 1 && channels <= 8 && bits == f.p && (int64_t)size * 8 / (f.bits * channels) >= 2;
    std::string before = state(d);
    // exact heap block: reading one byte further is caught
    int shift = c.draw(2);   // data in a file's contents may begin at any address
    uint8_t *mem = (uint8_t *)::malloc(size + shift + !size), *blk = mem + shift;
    memcpy(blk, b.data(), size);
    int r;
    if (file) {
      int off = (int)c.range(0, 5);
      FILE *fp = tmpfile(); CHECK(c, fp, "tmpfile");
      for (int k = 0; k < off; k++) fputc('x', fp);
      fwrite(b.data(), 1, size, fp); fflush(fp); fseek(fp, off, SEEK_SET);
      r = BKDataLoadRaw(&d, fp, channels, bits | endian);
      fclose(fp);
    } else r = BKDataSetData(&d, blk, size, channels, bits | endian);
    if (size) memset(blk, 0xee, size);
    ::free(mem);
    if (!valid) {
      CHECK(c, r < 0, "malformed data accepted: %d", r);
      CHECK(c, state(d) == before, "a refused request changed the data from %s to %s", before.c_str(), state(d).c_str());
      c.label("refused");
      continue;
    }
    CHECK(c, r == 0, "refused: %d (%s)", r, BKStatusGetName(r));
    auto want = decode(b, f, endian, channels);
    BKInt nf = 0, nc = 0;
    CHECK(c, BKGetAttr(&d, BK_NUM_FRAMES, &nf) == 0 && BKGetAttr(&d, BK_NUM_CHANNELS, &nc) == 0, "attributes");
    CHECK(c, nc == channels && (int64_t)nf * nc == (int64_t)want.size(), "%d frames, %d channels; expected %zu, %d", nf, nc, want.size() / channels, channels);
    for (size_t k = 0; k < want.size(); k++) CHECK(c, d.frames[k] == want[k], "frame %zu channel %zu: %d, expected %d", k / channels, k % channels, d.frames[k], want[k]);
    good = true;
    c.label(std::to_string(f.bits) + " bits");
  }
  BKDispose(&d);
  CHECK(c, vp_live == 0, "%ld blocks left", vp_live);
  if (good) c.nontrivial();
}
// data of hundreds of megabytes: the sizes in bits and the number of frames exceed 32 bits
static void big(Case &c) {
  struct T { size_t bytes; int fmt, ch; };
  std::vector<T> ts = {{((size_t)1 << 28) + 12345, 4, 1}, {((size_t)1 << 29) + 4096, 5, 2}, {((size_t)1 << 28), 0, 1}, {((size_t)1 << 31) + 4000, 3, 1}};
  if (c.thorough) ts.push_back({((size_t)1 << 30) + 7, 5, 1});
  for (auto &t : ts) {
    uint8_t *m = (uint8_t *)mmap(nullptr, t.bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return;
    const Fmt &f = FMT[t.fmt];
    m[t.bytes - 1] = 0x7f; m[t.bytes - 2] = 0x7f; m[0] = 0x7f; m[1] = 0x7f;
    c.note("%zu bytes of %d bits, %d channels", t.bytes, f.bits, t.ch);
    uint64_t values = (uint64_t)t.bytes * 8 / f.bits, frames = values / t.ch;
    BKData d; BKDataInit(&d);
    int r = BKDataSetData(&d, m, (BKUInt)t.bytes, t.ch, f.p | BK_LITTLE_ENDIAN);
    BKInt nf = 0; BKGetAttr(&d, BK_NUM_FRAMES, &nf);
    if (values > 0x7fffffff) CHECK(c, r < 0 && nf == 0, "%llu values were accepted (%d) as %d frames", (unsigned long long)values, r, nf);   // cannot be counted
    else {
      CHECK(c, r == 0, "refused: %d (%s)", r, BKStatusGetName(r));
      CHECK(c, (uint64_t)nf == frames, "%d frames, expected %llu", nf, (unsigned long long)frames);
      std::vector<uint8_t> a(m, m + 2), z(m + t.bytes - 2 - (f.bits == 16 && t.bytes % 2), m + t.bytes - (f.bits == 16 && t.bytes % 2));
      auto first = decode(a, f, BK_LITTLE_ENDIAN, 1), last = decode(z, f, BK_LITTLE_ENDIAN, 1);
      CHECK(c, d.frames[0] == first[0] && d.frames[frames * t.ch - 1] == last.back(), "first value %d, last %d; expected %d, %d", d.frames[0], d.frames[frames * t.ch - 1], first[0], last.back());
    }
    BKDispose(&d); munmap(m, t.bytes);
  }
  // more frames than can be counted; their size in bytes exceeds 32 bits
  size_t bytes = ((size_t)1 << 32) + 64;
  void *m = mmap(nullptr, bytes, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m != MAP_FAILED) {
    for (int copy = 0; copy < 2; copy++) for (BKUInt ch : {1, 2, 8}) {
      BKData d; BKDataInit(&d);
      BKUInt n = (BKUInt)((bytes / 2) / ch);
      c.note("%u frames of %u channels%s", n, ch, copy ? ", copied" : "");
      int r = BKDataSetFrames(&d, (BKFrame *)m, n, ch, copy);
      BKInt nf = 0; BKGetAttr(&d, BK_NUM_FRAMES, &nf);
      CHECK(c, r < 0 && nf == 0, "%u frames of %u channels were accepted (%d) as %d frames", n, ch, r, nf);
      BKDispose(&d);
    }
    munmap(m, bytes);
  }
  // a file of which the size cannot be counted
  FILE *fp = tmpfile(); CHECK(c, fp, "tmpfile");
  if (ftruncate(fileno(fp), ((off_t)1 << 32) + 64) == 0) {
    BKData d; BKDataInit(&d);
    int r = BKDataLoadRaw(&d, fp, 1, BK_8_BIT_SIGNED);
    BKInt nf = 0; BKGetAttr(&d, BK_NUM_FRAMES, &nf);
    CHECK(c, r < 0 && nf == 0, "a file of 2^32 + 64 bytes was loaded (%d) as %d frames", r, nf);
    BKDispose(&d);
  }
  fclose(fp);
}
std::vector<vp::Property> vp_properties() {
  return {{"C19", "random bytes in every width, sign, byte order and channel count, in memory and in a file at an offset, malformed requests between, against an independent decoder; exact-size blocks under AddressSanitizer; non-trivial: at least one accepted block", 300000, 3000000, test, {}, "exploration", {big}}};
}
VP_MAIN
