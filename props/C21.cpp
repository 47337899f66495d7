#include "common.h"
#include "wave.h"
// C21: WAVE round trip.
static void checkFile(Case &c, const Bytes &b, size_t off, int channels, int rate, int bits, const Frames &all, const char *when) {
  int w = bits / 8;
  CHECK(c, b.size() >= off + 44, "%s: file of %zu bytes", when, b.size());
  const uint8_t *h = b.data() + off;
  size_t data = all.size() * w, total = b.size() - off;
  CHECK(c, !memcmp(h, "RIFF", 4) && !memcmp(h + 8, "WAVEfmt ", 8) && !memcmp(h + 36, "data", 4), "%s: chunk names", when);
  CHECK(c, total == 44 + data || (data % 2 && total == 45 + data), "%s: file has %zu bytes for %zu bytes of data", when, total, data);
  CHECK(c, le32(h + 4) == total - 8, "%s: RIFF size %u in a file of %zu bytes", when, le32(h + 4), total);
  CHECK(c, le32(h + 40) == data, "%s: data size %u for %zu bytes", when, le32(h + 40), data);
  CHECK(c, le32(h + 16) == 16 && le16(h + 20) == 1, "%s: format chunk", when);
  CHECK(c, (int)le16(h + 22) == channels && (int)le32(h + 24) == rate && (int)le16(h + 34) == bits, "%s: %u channels, %u Hz, %u bits", when, le16(h + 22), le32(h + 24), le16(h + 34));
  CHECK(c, (int)le16(h + 32) == channels * w && le32(h + 28) == (uint32_t)rate * channels * w, "%s: block %u, byte rate %u", when, le16(h + 32), le32(h + 28));
  for (size_t i = 0; i < all.size(); i++) {
    int want = bits == 16 ? (uint16_t)all[i] : (all[i] >> 8) + 128, got = bits == 16 ? le16(h + 44 + 2 * i) : h[44 + i];
    CHECK(c, got == want, "%s: value %zu is stored as %d, expected %d", when, i, got, want);
  }
}
static BKFrame expect(BKFrame f, int bits) { return bits == 16 ? f : (BKFrame)(f & ~0xff); }
static void readBack(Case &c, FILE *f, size_t off, int channels, int rate, int bits, const Frames &all, bool loader) {
  int n = (int)all.size() / channels;
  fseek(f, (long)off, SEEK_SET);
  if (loader && n >= 2 && channels <= 8) {
    BKData d; BKDataInit(&d);
    int r = BKDataLoadWAVE(&d, f);
    CHECK(c, r == 0, "the loader refuses the file: %d (%s)", r, BKStatusGetName(r));
    BKInt nf = 0, nc = 0; BKGetAttr(&d, BK_NUM_FRAMES, &nf); BKGetAttr(&d, BK_NUM_CHANNELS, &nc);
    CHECK(c, nf == n && nc == channels, "loaded %d frames in %d channels, written %d in %d", nf, nc, n, channels);
    for (int i = 0; i < n * channels; i++) CHECK(c, d.frames[i] == expect(all[i], bits), "loaded value %d is %d, written %d", i, d.frames[i], all[i]);
    BKDispose(&d);
    return;
  }
  BKWaveFileReader r; BKInt nc = -1, sr = -1, nf = -1;
  CHECK(c, BKWaveFileReaderInit(&r, f) == 0, "reader init");
  int q = BKWaveFileReaderReadHeader(&r, &nc, &sr, &nf);
  CHECK(c, q == 0, "reader refuses the header: %d", q);
  CHECK(c, nc == channels && sr == rate && nf == n, "read %d channels, %d Hz, %d frames; written %d, %d, %d", nc, sr, nf, channels, rate, n);
  if (c.chance(1, 4)) { q = BKWaveFileReaderReadHeader(&r, &nc, &sr, &nf); CHECK(c, q == 0 && nc == channels && sr == rate && nf == n, "reading the header again gives %d", q); }
  BKFrame *o = (BKFrame *)::malloc(all.empty() ? 1 : all.size() * 2);
  CHECK(c, BKWaveFileReaderReadFrames(&r, o) == 0, "reading frames");
  for (size_t i = 0; i < all.size(); i++) CHECK(c, o[i] == expect(all[i], bits), "value %zu reads %d, written %d", i, o[i], all[i]);
  ::free(o);
  BKDispose(&r);
}
static void test(Case &c) {
  int channels = (int)c.pick({1, 2, 3, 8, 5, 1, 2}), rate = (int)c.edgy(1, 192000, {44100, 8000, 48000}), bitsArg = (int)c.pick({16, 8, 0}), bits = bitsArg ? bitsArg : 16;
  size_t off = c.chance(1, 3) ? (size_t)c.range(1, 100) : 0;
  FILE *f = memFile(Bytes()); CHECK(c, f, "memfd");
  for (size_t i = 0; i < off; i++) fputc(0x11, f);
  Frames all;
  auto value = [&]() -> BKFrame { return (BKFrame)c.edgy(-32768, 32767, {0, -1, 255, 256, -256, -32768, 32767}); };
  c.note("%d channels, %d Hz, %d bits, at offset %zu", channels, rate, bitsArg, off);
  bool viaData = c.chance(1, 5);
  if (viaData) {
    int n = (int)c.range(2, 60);
    for (int i = 0; i < n * channels; i++) all.push_back(value());
    BKData d; BKDataInit(&d); BKDataSetFrames(&d, all.data(), n, channels, 1);
    int r = BKWaveFileWriteData(f, &d, rate, bitsArg);
    CHECK(c, r == 0, "writing data object: %d", r);
    BKDispose(&d);
    checkFile(c, fileBytes(f), off, channels, rate, bits, all, "data object");
    c.label("data object");
  } else {
    BKWaveFileWriter *w = (BKWaveFileWriter *)::malloc(sizeof *w);
    int r = BKWaveFileWriterInit(w, f, channels, rate, bitsArg);
    CHECK(c, r == 0, "writer init: %d", r);
    int pieces = (int)c.range(0, 6);
    bool terminated = false;
    for (int i = 0; i < pieces; i++) {
      int n = (int)(c.chance(1, 150) ? c.logRange(1000, 80000) : c.chance(1, 6) ? c.range(0, c.thorough ? 5000 : 2500) : c.range(0, 40));
      // pieces may end inside a frame as long as the whole is complete
      if (i == pieces - 1 || c.flip()) n += (int)((channels - (all.size() + n) % channels) % channels);
      Frames p; BKFrame v = value(); int st = c.draw(3);
      for (int k = 0; k < n; k++) p.push_back(n < 64 || st == 0 ? value() : (BKFrame)(v + k * 777));
      BKFrame *blk = (BKFrame *)::malloc(n ? n * 2 : 1); if (n) memcpy(blk, p.data(), n * 2);
      CHECK(c, BKWaveFileWriterAppendFrames(w, blk, n) == 0, "append");
      ::free(blk);
      all.insert(all.end(), p.begin(), p.end());
      terminated = false;
      if (all.size() % channels == 0 && c.chance(1, 5)) {
        CHECK(c, BKWaveFileWriterTerminate(w) == 0, "terminate");
        terminated = true;
        checkFile(c, fileBytes(f), off, channels, rate, bits, all, "finished between");
        c.label("appended after finishing");
      }
      c.note("piece of %d values%s", n, terminated ? ", finished" : "");
    }
    while (all.size() % channels) { BKFrame v = 1; BKWaveFileWriterAppendFrames(w, &v, 1); all.push_back(v); }
    bool expl = c.flip();
    if (expl) CHECK(c, BKWaveFileWriterTerminate(w) == 0, "terminate");
    int after = expl ? (int)c.draw(4) : 0;
    if (after == 1) {
      // the file of a finished writer may be closed before the writer is disposed
      Bytes b = fileBytes(f); fclose(f);
      BKDispose(w);
      f = memFile(b); CHECK(c, f, "memfd");
      c.label("file closed before the writer");
    } else if (after == 2) {
      // or be used by its owner
      Bytes b = fileBytes(f); long at = (long)c.draw((uint32_t)b.size());
      fseek(f, at, SEEK_SET); fputc(b[at] ^ 0x5a, f); fflush(f);
      BKDispose(w);
      CHECK(c, ftell(f) == at + 1, "disposing of a finished writer moved the position of the file from %ld to %ld", at + 1, ftell(f));
      Bytes b2 = fileBytes(f);
      CHECK(c, b2.size() == b.size() && b2[at] == (b[at] ^ 0x5a), "disposing of a finished writer wrote to the file");
      fseek(f, at, SEEK_SET); fputc(b[at], f); fflush(f);
      c.label("file used before the writer is disposed");
    } else BKDispose(w);
    ::free(w);
    checkFile(c, fileBytes(f), off, channels, rate, bits, all, expl ? "terminated" : "disposed");
  }
  Bytes whole = fileBytes(f);
  for (size_t i = 0; i < off; i++) CHECK(c, whole[i] == 0x11, "byte %zu before the start offset was overwritten", i);
  readBack(c, f, off, channels, rate, bits, all, c.flip());
  fclose(f);
  if (all.size() > 1) c.nontrivial();
  c.label(std::to_string(bits) + " bits");
}
// one piece of more than 2 GB; takes as much memory, so only in the thorough tier
static void big(Case &c) {
  if (!c.thorough) return;
  int64_t n = ((int64_t)1 << 30) + 12345; size_t bytes = (size_t)n * 2;
  void *zero = mmap(nullptr, bytes, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  FILE *f = memFile(Bytes());
  if (zero == MAP_FAILED || !f) return;
  c.note("one piece of %lld values", (long long)n);
  BKWaveFileWriter w;
  CHECK(c, BKWaveFileWriterInit(&w, f, 1, 44100, 16) == 0, "init");
  CHECK(c, BKWaveFileWriterAppendFrames(&w, (BKFrame *)zero, (BKInt)n) == 0 && BKWaveFileWriterTerminate(&w) == 0, "writing");
  BKDispose(&w); munmap(zero, bytes);
  struct stat st; CHECK(c, fstat(fileno(f), &st) == 0 && (size_t)st.st_size == 44 + bytes, "file of %lld bytes", (long long)st.st_size);
  uint8_t h[44]; CHECK(c, pread(fileno(f), h, 44, 0) == 44, "header");
  CHECK(c, le32(h + 4) == 36 + bytes && le32(h + 40) == bytes, "sizes %u and %u in the header of a file with %zu bytes of data", le32(h + 4), le32(h + 40), bytes);
  rewind(f);
  BKWaveFileReader r; BKInt nc = 0, sr = 0, nf = 0;
  CHECK(c, BKWaveFileReaderInit(&r, f) == 0 && BKWaveFileReaderReadHeader(&r, &nc, &sr, &nf) == 0 && nf == n && nc == 1, "the header reads as %d frames of %d channels", nf, nc);
  BKDispose(&r); fclose(f);
}
std::vector<vp::Property> vp_properties() {
  return {{"C21", "random frames written in random pieces at random offsets, finished between or at the end, explicitly or by disposal; bytes checked against the format and read back by reader and loader; non-trivial: at least two values", 150000, 1500000, test, {}, "exploration", {big}}};
}
VP_MAIN
