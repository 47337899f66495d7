#include "common.h"
#include "wave.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
// C33: files that fail are reported. Faults are injected below stdio: a limit on the size of the file (a full disk),
// devices without space, closed descriptors, wrong modes, pipes, directories and streams failing at a chosen byte.
struct Limit {
  rlimit old;
  explicit Limit(int64_t n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); if (n >= 0) { rlimit r = old; r.rlim_cur = (rlim_t)n; setrlimit(RLIMIT_FSIZE, &r); } }
  ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static Frames genFrames(Case &c, int n) { Frames f; int st = (int)c.draw(3), v = (int)c.range(-32768, 32767); for (int i = 0; i < n; i++) f.push_back(st == 0 && n < 64 ? (BKFrame)c.edgy(-32768, 32767, {0, 255, -1}) : (BKFrame)(v + i * 777)); return f; }
static Bytes image(int channels, int rate, int bits, const Frames &f) {
  Bytes b; uint32_t w = bits / 8, n = (uint32_t)f.size() * w;
  putId(b, "RIFF"); put32(b, 36 + n); putId(b, "WAVE"); putId(b, "fmt "); put32(b, 16); put16(b, 1); put16(b, channels); put32(b, rate); put32(b, rate * channels * w); put16(b, channels * w); put16(b, bits);
  putId(b, "data"); put32(b, n);
  for (BKFrame x : f) { if (bits == 16) put16(b, (uint16_t)x); else b.push_back((uint8_t)((x >> 8) + 128)); }
  return b;
}
static FILE *opened(Case &c, int fd, const char *mode) { FILE *f = fd >= 0 ? fdopen(fd, mode) : nullptr; if (!f) c.discard(); return f; }
static void buffering(Case &c, FILE *f, std::vector<char> &buf) {
  switch (c.draw(4)) {
    case 0: setvbuf(f, nullptr, _IONBF, 0); c.note("unbuffered"); break;
    case 1: buf.resize((size_t)c.logRange(1, 3000)); setvbuf(f, buf.data(), _IOFBF, buf.size()); c.note("buffer of %zu", buf.size()); break;
    default: break;
  }
}
enum { PLAIN, FULL, SINK, RDONLY, WRONLY, PIPE, CLOSED, DIRECTORY };
static void writing(Case &c) {
  int channels = (int)c.pick({1, 2, 3, 8}), rate = (int)c.pick({8000, 44100, 96000}), bitsArg = (int)c.pick({16, 8, 0}), bits = bitsArg ? bitsArg : 16, w = bits / 8;
  static const int K[] = {PLAIN, FULL, SINK, RDONLY, PIPE, CLOSED};
  int kind = K[c.weighted({10, 2, 1, 1, 1, 1})];
  static const char *const N[] = {"file", "full device", "null device", "read-only file", "", "pipe", "closed descriptor"};
  std::vector<char> buf;                // outlives the file
  int fds[2] = {-1, -1}; FILE *f = nullptr;
  size_t off = kind == PLAIN && c.chance(1, 3) ? (size_t)c.range(1, 100) : 0;
  switch (kind) {
    case FULL: f = opened(c, open("/dev/full", O_WRONLY), "wb"); break;
    case SINK: f = opened(c, open("/dev/null", O_WRONLY), "wb"); break;
    case RDONLY: f = memFile(Bytes(50, 0x11), "rb"); break;
    case PIPE: if (pipe(fds) != 0) c.discard(); f = opened(c, fds[1], "wb"); break;
    default: f = memFile(Bytes(off, 0x11)); if (f) fseek(f, (long)off, SEEK_SET); break;
  }
  CHECK(c, f, "file");
  if (kind == RDONLY) { fclose(f); char p[64]; int fd = memfd_create("vp", 0); snprintf(p, sizeof p, "/proc/self/fd/%d", fd); f = opened(c, open(p, O_RDONLY), "rb"); close(fd); }
  buffering(c, f, buf);
  if (kind == CLOSED) close(fileno(f));
  bool whole = c.chance(1, 4);
  std::vector<Frames> pieces; Frames all; std::vector<bool> finish;
  int np = whole ? 1 : (int)c.range(0, 5);
  for (int i = 0; i < np; i++) {
    int n = c.chance(1, 200) ? (int)c.logRange(1000, 80000) : c.chance(1, 5) ? (int)c.range(0, 3000) : (int)c.range(0, 60);
    if (whole) n = std::max(n, 2);
    pieces.push_back(genFrames(c, n * channels)); finish.push_back(c.chance(1, 5));
    all.insert(all.end(), pieces.back().begin(), pieces.back().end());
  }
  int64_t need = (int64_t)(off + 44 + all.size() * w), limit = -1;
  // space for all but a few bytes, for nothing but part of the header, or for all
  if (kind == PLAIN) limit = c.weighted({3, 2, 3, 1}) == 3 ? -1 : c.pick({need, need - 1, need + 1, (int64_t)c.range((int64_t)off, need), (int64_t)c.range((int64_t)off, need), (int64_t)off + c.range(0, 44)});
  bool faulty = kind == FULL || (kind == PLAIN && limit >= 0 && limit < need), refused = kind == RDONLY || kind == PIPE || kind == CLOSED;
  c.note("%s at offset %zu, space for %lld of %lld bytes, %d channels, %d bits, %d pieces%s", N[kind], off, (long long)limit, (long long)need, channels, bitsArg, np, whole ? " of a data object" : "");
  bool reported = false; int r = 0;
  {
    Limit l(limit);
    if (whole) {
      BKData d; BKDataInit(&d);
      CHECK(c, BKDataSetFrames(&d, all.data(), (BKUInt)all.size() / channels, channels, 1) == 0, "frames");
      r = BKWaveFileWriteData(f, &d, rate, bitsArg); reported = r != 0;
      BKDispose(&d);
    } else {
      BKWaveFileWriter *wr = (BKWaveFileWriter *)::malloc(sizeof *wr);
      r = BKWaveFileWriterInit(wr, f, channels, rate, bitsArg);
      if (refused) {
        CHECK(c, r < 0, "a %s is accepted for writing: %d", N[kind], r);
        if (kind == RDONLY) CHECK(c, r == BK_FILE_NOT_WRITABLE_ERROR, "a read-only file is refused with %d (%s)", r, BKStatusGetName(r));
        if (kind == PIPE) CHECK(c, r == BK_FILE_NOT_SEEKABLE_ERROR, "a pipe is refused with %d (%s)", r, BKStatusGetName(r));
      } else {
        CHECK(c, r == 0, "writer refuses a %s: %d", N[kind], r);
        for (int i = 0; i < np; i++) {
          BKFrame *blk = (BKFrame *)::malloc(pieces[i].size() * 2 + 1); if (pieces[i].size()) memcpy(blk, pieces[i].data(), pieces[i].size() * 2);
          int q = BKWaveFileWriterAppendFrames(wr, blk, (BKInt)pieces[i].size());
          ::free(blk);
          CHECK(c, faulty || q == 0, "appending piece %d gives %d without a fault", i, q);
          CHECK(c, q <= 0, "appending gives %d", q);
          if (q) { reported = true; c.label("reported on appending"); }
          if (finish[i]) { q = BKWaveFileWriterTerminate(wr); CHECK(c, faulty || q == 0, "finishing after piece %d gives %d without a fault", i, q); if (q) reported = true; }
        }
        int q = BKWaveFileWriterTerminate(wr);
        CHECK(c, q == 0 || faulty, "finishing gives %d without a fault", q);
        CHECK(c, q <= 0, "finishing gives %d", q);
        if (q) { reported = true; c.label("reported on finishing"); }
        BKDispose(wr);
      }
      ::free(wr);
    }
  }
  if (whole && refused) CHECK(c, r < 0, "writing data to a %s gives %d", N[kind], r);
  if (faulty) CHECK(c, reported, "nothing reported although there is space for only %lld of %lld bytes", (long long)limit, (long long)need);
  if (!faulty && !refused) CHECK(c, !reported, "an error (%d) is reported without a fault", r);
  if (kind == PLAIN && !reported) {
    Bytes b = fileBytes(f), want = image(channels, rate, bits, all);
    CHECK(c, b.size() == off + want.size() || b.size() == off + want.size() + (want.size() & 1), "file of %zu bytes, expected %zu", b.size(), off + want.size());
    if (b.size() == off + want.size()) CHECK(c, !memcmp(b.data() + off, want.data(), want.size()), "success is reported but the file has other content");
  }
  if (kind == CLOSED) { int fd = open("/dev/null", O_RDWR); (void)fd; }     // fclose closes a descriptor again
  fclose(f);
  if (fds[0] >= 0) close(fds[0]);
  if (faulty || refused) c.nontrivial();
  c.label(std::string("write: ") + (faulty ? kind == FULL ? "full device" : "no space" : N[kind]));
}
struct Cookie { Bytes b; int64_t pos = 0, fail = -1, shortAt = -1; int chunk = 1 << 20; };
static ssize_t ckRead(void *p, char *o, size_t n) {
  Cookie *k = (Cookie *)p;
  n = std::min(n, (size_t)k->chunk);
  int64_t end = (int64_t)k->b.size();
  if (k->shortAt >= 0) end = std::min(end, k->shortAt);
  if (k->fail >= 0) { if (k->pos >= k->fail) { errno = EIO; return -1; } end = std::min(end, k->fail); }
  int64_t m = std::max<int64_t>(0, std::min<int64_t>((int64_t)n, end - k->pos));
  if (m) memcpy(o, &k->b[(size_t)k->pos], (size_t)m);
  k->pos += m; return m;
}
static int ckSeek(void *p, off64_t *o, int wh) { Cookie *k = (Cookie *)p; int64_t x = wh == SEEK_SET ? *o : wh == SEEK_CUR ? k->pos + *o : (int64_t)k->b.size() + *o; if (x < 0) return -1; k->pos = *o = x; return 0; }
static void reading(Case &c) {
  int channels = (int)c.pick({1, 2, 3, 8}), rate = (int)c.pick({8000, 44100}), bits = (int)c.pick({16, 8});
  Frames fr = genFrames(c, (int)(c.chance(1, 200) ? c.logRange(1000, 70000) : c.chance(1, 5) ? c.range(2, 2000) : c.range(2, 60)) * channels);
  enum { READER, LOADER, RAW };
  int how = (int)c.draw(3);
  Bytes b = how == RAW ? Bytes() : image(channels, rate, bits, fr);
  if (how == RAW) for (BKFrame x : fr) put16(b, (uint16_t)x);
  static const int K[] = {PLAIN, WRONLY, PIPE, CLOSED, DIRECTORY, SINK};
  int kind = K[c.weighted({how == RAW ? 12 : 2, 2, 2, 2, 1, 1})];
  static const char *const N[] = {"file", "", "null device", "", "write-only file", "pipe", "closed descriptor", "directory"};
  Cookie ck; int fds[2] = {-1, -1}; FILE *f = nullptr; std::vector<char> buf;
  int fault = 0; int64_t at = 0;
  switch (kind) {
    case PLAIN:
      if (how == RAW) {
        ck.b = b; fault = (int)c.draw(3); at = c.range(0, (int64_t)b.size() - 1);
        if (fault == 1) ck.fail = at; else if (fault == 2) ck.shortAt = at;
        ck.chunk = c.flip() ? 1 << 20 : (int)c.range(1, 50);
        cookie_io_functions_t io = {ckRead, nullptr, ckSeek, nullptr};
        f = fopencookie(&ck, "rb", io);
      } else f = memFile(b, "rb");
      break;
    case WRONLY: { char p[64]; int fd = memfd_create("vp", 0); if (write(fd, b.data(), b.size()) != (ssize_t)b.size()) c.discard(); snprintf(p, sizeof p, "/proc/self/fd/%d", fd); f = opened(c, open(p, O_WRONLY), "wb"); close(fd); break; }
    case PIPE: { if (pipe(fds) != 0) c.discard(); size_t n = std::min<size_t>(b.size(), 60000); if (write(fds[1], b.data(), n) != (ssize_t)n) c.discard(); close(fds[1]); fds[1] = -1; f = opened(c, fds[0], "rb"); break; }
    case CLOSED: f = memFile(b, "rb"); break;
    case DIRECTORY: f = opened(c, open("/", O_RDONLY | O_DIRECTORY), "rb"); break;
    case SINK: f = opened(c, open("/dev/null", O_RDONLY), "rb"); break;
  }
  CHECK(c, f, "file");
  buffering(c, f, buf);
  if (kind == CLOSED) close(fileno(f));
  bool ok = kind == PLAIN && !fault;
  static const char *const H[] = {"reader", "WAVE loader", "raw loader"};
  c.note("%s on %s, %zu bytes, %d channels%s", H[how], N[kind], b.size(), channels, fault == 1 ? ", error" : fault == 2 ? ", ends early" : "");
  if (fault) c.note("at byte %lld, %d bytes at once", (long long)at, ck.chunk);
  if (how == READER) {
    BKWaveFileReader r; BKInt nc = -7, sr = -7, nf = -7;
    int q = BKWaveFileReaderInit(&r, f);
    CHECK(c, q <= 0, "init gives %d", q);
    if (kind == WRONLY) CHECK(c, q == BK_FILE_NOT_READABLE_ERROR, "a write-only file gives %d (%s)", q, BKStatusGetName(q));
    if (kind == PIPE) CHECK(c, q == BK_FILE_NOT_SEEKABLE_ERROR, "a pipe gives %d (%s)", q, BKStatusGetName(q));
    if (q == 0) {
      q = BKWaveFileReaderReadHeader(&r, &nc, &sr, &nf);
      CHECK(c, q <= 0, "header gives %d", q);
      if (q == 0) {
        CHECK(c, ok, "a header is read from a %s", N[kind]);
        CHECK(c, nc == channels && sr == rate && nf == (int)fr.size() / channels, "header");
        Frames o(fr.size(), 0x3c3c); CHECK(c, BKWaveFileReaderReadFrames(&r, o.data()) == 0, "frames");
        for (size_t i = 0; i < fr.size(); i++) CHECK(c, o[i] == (bits == 16 ? fr[i] : (BKFrame)(fr[i] & ~255)), "value %zu", i);
      }
      BKDispose(&r);
    }
    CHECK(c, (q == 0) == ok, "reading a %s gives %d", N[kind], q);
  } else {
    BKData d; BKDataInit(&d);
    Frames old = {1, 2, 3, 4, 5, 6}; bool had = c.flip();
    if (had) CHECK(c, BKDataSetFrames(&d, old.data(), 3, 2, 1) == 0, "frames");
    int q = how == LOADER ? BKDataLoadWAVE(&d, f) : BKDataLoadRaw(&d, f, channels, BK_16_BIT_SIGNED | BK_LITTLE_ENDIAN);
    CHECK(c, q <= 0 && (q == 0) == ok, "%s on a %s gives %d (%s)%s", H[how], N[kind], q, BKStatusGetName(q), fault ? " although the file could not be read" : "");
    BKInt nf = 0, nc = 0; BKGetAttr(&d, BK_NUM_FRAMES, &nf); BKGetAttr(&d, BK_NUM_CHANNELS, &nc);
    if (ok) {
      CHECK(c, nc == channels && nf == (int)fr.size() / channels, "%d frames, %d channels", nf, nc);
      for (size_t i = 0; i < fr.size(); i++) CHECK(c, d.frames[i] == (bits == 16 || how == RAW ? fr[i] : (BKFrame)(fr[i] & ~255)), "value %zu is %d, in the file %d", i, d.frames[i], fr[i]);
    } else CHECK(c, nf == (had ? 3 : 0) && (!had || (nc == 2 && !memcmp(d.frames, old.data(), 12))), "a failed load changed the data: %d frames", nf);
    BKDispose(&d);
  }
  CHECK(c, vp_live == 0, "%ld blocks left", vp_live);
  if (kind == CLOSED) { int fd = open("/dev/null", O_RDONLY); (void)fd; }
  fclose(f);
  if (!ok) c.nontrivial();
  c.label(std::string("read: ") + H[how] + ", " + (fault == 1 ? "error" : fault == 2 ? "ends early" : N[kind]));
}
static void test(Case &c) { if (c.flip()) writing(c); else reading(c); }
std::vector<vp::Property> vp_properties() {
  return {{"C33", "WAVE files written where space ends at any byte, to full and null devices, and to read-only, unseekable and closed files; WAVE and raw data read from write-only, unseekable and closed files, directories and streams that fail or end early at any byte; every fault has to be reported, nothing else, and reported success means complete content; non-trivial: a fault", 200000, 2000000, test, {}}};
}
VP_MAIN
