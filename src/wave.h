#ifndef VP_WAVE_H
#define VP_WAVE_H
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
typedef std::vector<uint8_t> Bytes;
static FILE *memFile(const Bytes &b, const char *mode = "w+b") {
  int fd = memfd_create("vp", 0);
  if (fd < 0) return NULL;
  size_t off = 0;
  while (off < b.size()) { ssize_t k = write(fd, b.data() + off, b.size() - off); if (k <= 0) break; off += (size_t)k; }
  lseek(fd, 0, SEEK_SET);
  return fdopen(fd, mode[0] == 'r' && mode[1] != '+' ? "rb" : "r+b");
}
static Bytes fileBytes(FILE *f) { fflush(f); Bytes b; int fd = fileno(f); struct stat st; if (fstat(fd, &st) != 0) return b; b.resize((size_t)st.st_size); if (!b.empty()) { ssize_t k = pread(fd, b.data(), b.size(), 0); (void)k; } return b; }
static uint32_t le32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t le16(const uint8_t *p) { return p[0] | p[1] << 8; }
static void put32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
static void put16(Bytes &b, uint32_t v) { for (int i = 0; i < 2; i++) b.push_back(v >> (8 * i)); }
static void putId(Bytes &b, const char *s) { b.insert(b.end(), s, s + 4); }
#endif
