#include "engine.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

extern "C" void vp_case_reset(uint64_t seed);   // allocation shim: reset per case

namespace vp {

// ---------------------------------------------------------------- choices
static inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

enum { TAPE_MAX = 1 << 18 };
struct Shared {                       // one per worker / child, in shared memory
  volatile int64_t currentCase;
  volatile int64_t evaluations, nontrivial, discards;
  volatile int failed;                // child: property failure recorded
  char msg[4096];
  char desc[16384];
  volatile uint32_t tapeLen;
  uint32_t tape[TAPE_MAX];
  volatile uint32_t labelLen;
  char labels[1 << 15];               // "name=count\n"
  volatile uint32_t nHashes;
  uint64_t hashes[1 << 18];
  volatile uint32_t nSamples;
  char samples[6][1500];
};
static Shared *gShared = nullptr;     // where the current case records its tape

uint32_t Case::draw(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay) {
    v = pos < in.size() ? in[pos] : 0;
    if (v >= n) v = v % n;
  } else {
    v = (uint32_t)(splitmix(rng) % n);
  }
  if (gShared && pos < TAPE_MAX) { gShared->tape[pos] = v; gShared->tapeLen = (uint32_t)pos + 1; }
  pos++;
  return v;
}
int64_t Case::range(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  uint64_t span = (uint64_t)(hi - lo) + 1;
  if (span <= 0xFFFFFFFFull) return lo + (int64_t)draw((uint32_t)span);
  if (span == 0x100000000ull) {  // full 32 bit
    uint32_t a = draw(65536), b = draw(65536);
    return lo + (int64_t)(((uint64_t)a << 16) | b);
  }
  uint64_t hiPart = span >> 31;
  uint64_t v = ((uint64_t)draw((uint32_t)std::min<uint64_t>(hiPart + 1, 0x7FFFFFFF)) << 31) | draw(1u << 31);
  return lo + (int64_t)(v % span);
}
bool Case::chance(int num, int den) { return (int)draw((uint32_t)den) >= den - num; }
int64_t Case::edgy(int64_t lo, int64_t hi, std::initializer_list<int64_t> edges) {
  uint32_t k = draw(4);
  if (k == 1 && edges.size()) return edges.begin()[draw((uint32_t)edges.size())];
  if (k == 2) {
    int64_t base[4] = {lo, hi, 0, (lo + hi) / 2};
    int64_t v = base[draw(4)] + (int64_t)draw(5) - 2;
    return std::min(std::max(v, lo), hi);
  }
  return range(lo, hi);
}
int64_t Case::logRange(int64_t lo, int64_t hi) {
  double l = std::log((double)lo + 1), h = std::log((double)hi + 1);
  double x = l + (h - l) * (draw(1 << 20) / (double)((1 << 20) - 1));
  int64_t v = (int64_t)std::llround(std::exp(x)) - 1;
  return std::min(std::max(v, lo), hi);
}
int Case::weighted(std::initializer_list<int> w) {
  int sum = 0;
  for (int x : w) sum += x;
  int r = (int)draw((uint32_t)sum), i = 0;
  for (int x : w) { if (r < x) return i; r -= x; i++; }
  return i - 1;
}
static std::string vfmt(const char *fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
void Case::note(const char *fmt, ...) {
  if (desc.size() > 12000) return;
  va_list ap; va_start(ap, fmt); desc += vfmt(fmt, ap); va_end(ap);
  desc += "\n";
  if (gShared) { snprintf(gShared->desc, sizeof gShared->desc, "%s", desc.c_str()); }
}
void Case::fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  throw Failure{m};
}

// ---------------------------------------------------------------- running one case
enum Outcome { OK = 0, FAIL = 1, DISCARD = 2 };

static Outcome runInProcess(const Property &p, Case &c, std::string &msg) {
  try {
    p.test(c);
  } catch (Failure &f) { msg = f.msg; return FAIL; }
  catch (Discard &) { return DISCARD; }
  return OK;
}
static uint64_t caseSeed(const char *id, uint64_t seed, int64_t idx) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  for (const char *q = id; *q; q++) { s ^= (uint8_t)*q; splitmix(s); }
  s ^= (uint64_t)idx * 0xD1342543DE82EF95ull;
  splitmix(s);
  return s;
}
static uint64_t hashTape(const uint32_t *t, uint32_t n) {
  uint64_t h = 1469598103934665603ull;
  for (uint32_t i = 0; i < n; i++) { h ^= t[i]; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}
static void setCpu(int sec) {
  // relative CPU watchdog, delivered as SIGVTALRM/SIGPROF (default action: terminate)
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static Shared *mapShared() {
  void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared *)m;
}
static std::string gScratch;           // scratch dir of this run
static std::string gErrFile;           // where children's stderr goes

static std::string tailOfErr() {
  std::string out;
  FILE *f = fopen(gErrFile.c_str(), "r");
  if (!f) return out;
  char line[1024];
  int n = 0;
  while (fgets(line, sizeof line, f) && n < 40) {
    if (strstr(line, "ERROR:") || strstr(line, "runtime error") || strstr(line, "    #")) { out += line; n++; }
  }
  fclose(f);
  return out;
}

struct ChildResult { Outcome o; std::string msg, desc; std::vector<uint32_t> tape; };

// run one case in a forked child; crash => FAIL
static ChildResult runForked(const Property &p, const std::vector<uint32_t> *tape, uint64_t rng, bool thorough, bool verbose,
                             const std::function<void(Case &)> *alt = nullptr) {
  static Shared *sh = nullptr;
  if (!sh) sh = mapShared();
  sh->failed = 0; sh->msg[0] = 0; sh->desc[0] = 0; sh->tapeLen = 0;
  if (!verbose) unlink(gErrFile.c_str());
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    gShared = sh;
    if (!verbose) {
      int fd = open(gErrFile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      if (fd >= 0) { dup2(fd, 2); close(fd); }
    }
    setCpu(p.cpuLimit);
    Case c; c.thorough = thorough; c.verbose = verbose;
    if (tape) { c.replay = true; c.in = *tape; } else c.rng = rng;
    std::string msg;
    vp_case_reset(1);
    Property q = p;
    if (alt) q.test = *alt;
    Outcome o = runInProcess(q, c, msg);
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    snprintf(sh->desc, sizeof sh->desc, "%s", c.desc.c_str());
    fflush(stdout); fflush(stderr);
    _exit(o == OK ? 0 : o == FAIL ? 10 : 11);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  ChildResult r;
  r.desc = sh->desc;
  r.tape.assign(sh->tape, sh->tape + std::min<uint32_t>((uint32_t)sh->tapeLen, (uint32_t)TAPE_MAX));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.o = OK;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) r.o = DISCARD;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { r.o = FAIL; r.msg = sh->msg; }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.o = DISCARD; r.msg = "killed from outside"; }
  else {
    r.o = FAIL;
    char b[128];
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) snprintf(b, sizeof b, "case does not terminate (over %d s of CPU)\n", p.cpuLimit);
    else if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d\n", WTERMSIG(st));
    else snprintf(b, sizeof b, "crash: exit status %d\n", WEXITSTATUS(st));
    r.msg = b + tailOfErr();
  }
  return r;
}

// ---------------------------------------------------------------- shrinking
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<uint32_t> shrink(const Property &p, std::vector<uint32_t> best, bool thorough, int &attempts) {
  double t0 = now();
  const double budget = getenv("VP_NOSHRINK") ? 0 : 45; // VP_NOSHRINK: mutation runs only
  attempts = 0;
  auto fails = [&](const std::vector<uint32_t> &t) {
    attempts++;
    return runForked(p, &t, 0, thorough, false).o == FAIL;
  };
  auto over = [&] { return now() - t0 > budget || attempts > 1500; };
  bool improved = true;
  while (improved && !over()) {
    improved = false;
    // truncate
    for (size_t cut = best.size() / 2; cut >= 1 && !over(); cut /= 2) {
      while (best.size() >= cut && !over()) {
        std::vector<uint32_t> t(best.begin(), best.end() - cut);
        if (fails(t)) { best = t; improved = true; } else break;
      }
    }
    // delete blocks
    for (size_t len = std::min<size_t>(64, best.size()); len >= 1 && !over(); len /= 2) {
      for (size_t i = best.size(); i >= len && i > 0 && !over();) {
        size_t s = i - len;
        std::vector<uint32_t> t(best);
        t.erase(t.begin() + s, t.begin() + s + len);
        if (fails(t)) { best = t; improved = true; i = std::min(i - len, best.size()); }
        else i = i > len ? i - std::max<size_t>(1, len / 2) : 0;
      }
    }
    // lower values
    for (size_t i = 0; i < best.size() && !over(); i++) {
      if (!best[i]) continue;
      for (uint32_t v : {0u, best[i] / 2, best[i] - 1}) {
        if (v >= best[i]) continue;
        std::vector<uint32_t> t(best);
        t[i] = v;
        if (fails(t)) { best = t; improved = true; break; }
        if (over()) break;
      }
    }
  }
  return best;
}

// ---------------------------------------------------------------- output helpers
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
static void mergeLabel(Shared *sh, std::map<std::string, long> &m) {
  std::string cur(sh->labels);
  size_t p = 0;
  while (p < cur.size()) {
    size_t e = cur.find('\n', p); if (e == std::string::npos) break;
    std::string l = cur.substr(p, e - p);
    size_t q = l.rfind('=');
    if (q != std::string::npos) m[l.substr(0, q)] += atol(l.c_str() + q + 1);
    p = e + 1;
  }
}

static void workerLoop(const Property &p, uint64_t seed, int w, int nw, int64_t from, int64_t to, bool thorough, Shared *sh, double deadline) {
  gShared = sh;
  std::map<std::string, long> labels;
  mergeLabel(sh, labels);
  double lastFlush = now();
  auto flush = [&] {
    std::string s;
    for (auto &kv : labels) s += kv.first + "=" + std::to_string(kv.second) + "\n";
    if (s.size() < sizeof sh->labels) strcpy(sh->labels, s.c_str());
  };
  for (int64_t i = from + w; i < to; i += nw) {
    if (now() > deadline) break;
    sh->currentCase = i;
    sh->tapeLen = 0;
    setCpu(p.cpuLimit);
    Case c; c.thorough = thorough; c.rng = caseSeed(p.id, seed, i);
    std::string msg;
    vp_case_reset(c.rng);
    Outcome o = runInProcess(p, c, msg);
    sh->evaluations = sh->evaluations + 1;
    if (o == FAIL) { sh->failed = 1; flush(); _exit(10); }
    if (o == DISCARD) { sh->discards = sh->discards + 1; continue; }
    for (auto &l : c.labels) labels[l]++;
    if (c.nontrivialFlag) {
      sh->nontrivial = sh->nontrivial + 1;
      if (sh->nHashes < sizeof sh->hashes / sizeof sh->hashes[0]) {
        sh->hashes[sh->nHashes] = hashTape(sh->tape, std::min<uint32_t>((uint32_t)sh->tapeLen, (uint32_t)TAPE_MAX));
        sh->nHashes = sh->nHashes + 1;
      }
      if (sh->nSamples < 3 || (sh->nSamples < 6 && (i / nw) % 97 == 5)) {
        snprintf(sh->samples[sh->nSamples], sizeof sh->samples[0], "case %lld:\n%s", (long long)i, c.desc.c_str());
        sh->nSamples = sh->nSamples + 1;
      }
    }
    if (now() - lastFlush > 1) { flush(); lastFlush = now(); }
  }
  flush();
  setCpu(0);
  fflush(stdout);
  _exit(0);
}

static std::set<std::string> loadKnown(const char *id) {
  std::set<std::string> known;
  const char *dir = getenv("VP_ROOT");
  std::string path = std::string(dir ? dir : "/verif") + "/known_findings.jsonl";
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return known;
  char line[8192];
  while (fgets(line, sizeof line, f)) {
    std::string l(line);
    if (l.find("\"status\": \"known\"") == std::string::npos) continue;
    if (l.find(std::string("\"property\": \"") + id + "\"") == std::string::npos) continue;
    size_t k = l.find("\"key\": \"");
    if (k == std::string::npos) continue;
    k += 8;
    known.insert(l.substr(k, l.find('"', k) - k));
  }
  fclose(f);
  return known;
}

static std::string writeReplay(const Property &p, const std::string &kind, const std::vector<uint32_t> &tape, bool thorough,
                               const std::string &msg, const std::string &desc) {
  const char *root = getenv("VP_ROOT");
  std::string dir = std::string(root ? root : "/verif") + "/replays";
  mkdir(dir.c_str(), 0755);
  char name[256];
  snprintf(name, sizeof name, "%s/%s-%016llx.replay", dir.c_str(), p.id, (unsigned long long)(hashTape(tape.data(), (uint32_t)tape.size()) ^ std::hash<std::string>()(kind)));
  FILE *f = fopen(name, "w");
  if (!f) { perror(name); return name; }
  fprintf(f, "property %s\nkind %s\ntier %s\ntape", p.id, kind.c_str(), thorough ? "thorough" : "quick");
  for (uint32_t v : tape) fprintf(f, " %u", v);
  fprintf(f, "\n--- failure\n%s\n--- case\n%s\n", msg.c_str(), desc.c_str());
  fclose(f);
  return name;
}

int main_impl(int argc, char **argv, std::vector<Property> props) {
  if (argc < 2) { fprintf(stderr, "usage: %s PROPERTY | --replay FILE\n", argv[0]); return 2; }
  char tmpl[] = "/tmp/vp-run-XXXXXX";
  const char *sc = getenv("VP_SCRATCH");
  gScratch = sc ? sc : mkdtemp(tmpl);
  gErrFile = gScratch + "/child.err." + std::to_string(getpid());
  setenv("VP_SCRATCH", gScratch.c_str(), 1);

  bool replay = !strcmp(argv[1], "--replay");
  std::string id = replay ? "" : argv[1];
  std::vector<uint32_t> tape; std::string kind = "generated"; bool replThorough = false;
  if (replay) {
    FILE *f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 2; }
    std::string all; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n);
    fclose(f);
    size_t p = 0;
    while (p < all.size()) {
      size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size();
      std::string l = all.substr(p, e - p); p = e + 1;
      if (l.rfind("property ", 0) == 0) id = l.substr(9);
      else if (l.rfind("kind ", 0) == 0) kind = l.substr(5);
      else if (l.rfind("tier ", 0) == 0) replThorough = l.substr(5) == "thorough";
      else if (l.rfind("tape", 0) == 0) {
        const char *q = l.c_str() + 4; char *end;
        for (;;) { unsigned long v = strtoul(q, &end, 10); if (end == q) break; tape.push_back((uint32_t)v); q = end; }
        break;
      }
    }
  }
  Property *pp = nullptr;
  for (auto &p : props) if (id == p.id) pp = &p;
  if (!pp) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
  Property &p = *pp;

  if (replay) {
    ChildResult r;
    if (kind.rfind("seed:", 0) == 0) r = runForked(p, nullptr, strtoull(kind.c_str() + 5, nullptr, 10), replThorough, true);
    else if (kind == "generated") r = runForked(p, &tape, 0, replThorough, true);
    else {
      bool done = false;
      for (size_t i = 0; i < p.fixed.size(); i++) if (kind == "fixed:" + std::to_string(i)) { r = runForked(p, &tape, 0, replThorough, true, &p.fixed[i]); done = true; }
      for (auto &fd : p.findings) if (kind == std::string("finding:") + fd.key) { r = runForked(p, &tape, 0, replThorough, true, &fd.run); done = true; }
      if (!done) { fprintf(stderr, "unknown kind %s\n", kind.c_str()); return 2; }
    }
    printf("%s\n%s\n%s\n", r.o == FAIL ? "REPRODUCED" : "NOT REPRODUCED", r.msg.c_str(), r.desc.c_str());
    return r.o == FAIL ? 1 : 0;
  }

  const char *es = getenv("VERIF_SEED"), *et = getenv("VERIF_TIER");
  uint64_t seed = es ? strtoull(es, nullptr, 10) : 1;
  bool thorough = et && !strcmp(et, "thorough");
  int64_t cases = thorough ? p.thoroughCases : p.quickCases;
  const char *ec = getenv("VP_CASES");
  if (ec) cases = atoll(ec);
  double t0 = now(), deadline = t0 + (thorough ? 3000 : 420);
  int nw = 8;
  const char *ew = getenv("VP_WORKERS"); if (ew) nw = atoi(ew);

  int violations = 0; std::string violationLine;
  auto report = [&](const std::string &kindS, const std::vector<uint32_t> &t, const std::string &msg, const std::string &desc) {
    std::string path = writeReplay(p, kindS, t, thorough, msg, desc);
    printf("--- %s\n%s\n%s\n", kindS.c_str(), msg.c_str(), desc.c_str());
    violationLine = std::string("VIOLATION property=") + p.id + " replay=" + path;
    violations++;
  };
  // recorded findings: present in the file => report, suppress; otherwise a regression scenario
  std::set<std::string> known = loadKnown(p.id);
  long fixedRuns = 0;
  for (auto &fd : p.findings) {
    std::vector<uint32_t> empty;
    ChildResult r = runForked(p, &empty, 0, thorough, false, &fd.run);
    fixedRuns++;
    if (r.o == FAIL) {
      if (known.count(fd.key)) printf("KNOWN-FINDING: property=%s %s\n", p.id, fd.key);
      else if (!violations) report(std::string("finding:") + fd.key, empty, r.msg, r.desc);
    }
  }
  for (size_t i = 0; i < p.fixed.size() && !violations; i++) {
    std::vector<uint32_t> empty;
    ChildResult r = runForked(p, &empty, 0, thorough, false, &p.fixed[i]);
    fixedRuns++;
    if (r.o == FAIL) {
      int again = 0;
      for (int k = 0; k < 3; k++) again += runForked(p, &empty, 0, thorough, false, &p.fixed[i]).o == FAIL;
      if (again == 3) report("fixed:" + std::to_string(i), empty, r.msg, r.desc);
    }
  }

  std::vector<Shared *> sh(nw);
  long unreproduced = 0;
  int64_t failIdx = -1;
  if (!violations) {
    std::vector<pid_t> pids(nw);
    std::vector<int64_t> from(nw, 0);
    for (int w = 0; w < nw; w++) { sh[w] = mapShared(); memset((void *)sh[w], 0, 64); sh[w]->currentCase = -1; }
    auto spawn = [&](int w, int64_t start) {
      fflush(stdout); fflush(stderr);
      pid_t pid = fork();
      if (pid == 0) {
        std::string ef = gErrFile + ".w" + std::to_string(w);
        int fd = open(ef.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        sh[w]->failed = 0;
        workerLoop(p, seed, 0, nw, start, cases, thorough, sh[w], deadline);
      }
      pids[w] = pid;
    };
    for (int w = 0; w < nw; w++) spawn(w, w);
    int live = nw;
    std::vector<int64_t> failedCases;
    while (live > 0) {
      int st; pid_t pid = waitpid(-1, &st, 0);
      if (pid < 0) { if (errno == EINTR) continue; break; }
      int w = -1;
      for (int k = 0; k < nw; k++) if (pids[k] == pid) w = k;
      if (w < 0) continue;
      live--;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      // failed or crashed at currentCase
      int64_t idx = sh[w]->currentCase;
      if (idx < 0) { fprintf(stderr, "worker died before its first case\n"); return 3; }
      // verify in isolation before stopping everything
      ChildResult r = runForked(p, nullptr, caseSeed(p.id, seed, idx), thorough, false);
      if (r.o == FAIL) {
        failedCases.push_back(idx);
        for (int k = 0; k < nw; k++) if (k != w) kill(pids[k], SIGTERM);
        while (live > 0) { if (waitpid(-1, &st, 0) < 0 && errno != EINTR) break; else live--; }
        failIdx = idx;
        break;
      }
      unreproduced++;
      if (unreproduced > 50) break;
      spawn(w, idx + nw); live++;
    }
    if (failIdx >= 0) {
      ChildResult r = runForked(p, nullptr, caseSeed(p.id, seed, failIdx), thorough, false);
      std::vector<uint32_t> tape0 = r.tape;
      int attempts = 0;
      std::vector<uint32_t> small = shrink(p, tape0, thorough, attempts);
      int again = 0; ChildResult rr;
      for (int k = 0; k < 3; k++) { rr = runForked(p, &small, 0, thorough, false); again += rr.o == FAIL; }
      if (again < 3) { small = tape0; again = 0; for (int k = 0; k < 3; k++) { rr = runForked(p, &small, 0, thorough, false); again += rr.o == FAIL; } }
      if (again == 3) {
        std::string m = rr.msg + "\n(case " + std::to_string(failIdx) + ", seed " + std::to_string(seed) + ", shrunk from " + std::to_string(tape0.size()) + " to " + std::to_string(small.size()) + " choices in " + std::to_string(attempts) + " attempts)";
        report("generated", small, m, rr.desc);
      } else {
        // too many choices for the record: the case is identified by its seed
        uint64_t cs = caseSeed(p.id, seed, failIdx); again = 0;
        for (int k = 0; k < 3; k++) { rr = runForked(p, nullptr, cs, thorough, false); again += rr.o == FAIL; }
        if (again == 3) report("seed:" + std::to_string(cs), {}, rr.msg + "\n(case " + std::to_string(failIdx) + ", seed " + std::to_string(seed) + ", not shrunk)", rr.desc);
        else unreproduced++;
      }
    }
  }

  // evidence
  long ev = fixedRuns, nt = 0, dis = 0; std::map<std::string, long> labels; std::set<uint64_t> hashes; std::vector<std::string> samples;
  for (auto *s : sh) if (s) {
    ev += s->evaluations; nt += s->nontrivial; dis += s->discards; mergeLabel(s, labels);
    for (uint32_t i = 0; i < s->nHashes; i++) hashes.insert(s->hashes[i]);
    for (uint32_t i = 0; i < s->nSamples && samples.size() < 12; i++) samples.push_back(s->samples[i]);
  }
  const char *root = getenv("VP_ROOT");
  std::string epath = std::string(root ? root : "/verif") + "/evidence/" + p.id + ".json";
  mkdir((std::string(root ? root : "/verif") + "/evidence").c_str(), 0755);
  FILE *f = fopen(epath.c_str(), "w");
  if (f) {
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n", p.id, thorough ? "thorough" : "quick", (unsigned long long)seed, p.level);
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %ld,\n  \"nontrivial\": %ld,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %ld,\n  \"fixed_scenarios\": %ld,\n  \"unreproduced\": %ld,\n  \"rule\": \"%s\",\n  \"labels\": {", ev, nt, hashes.size(), dis, fixedRuns, unreproduced, jesc(p.rule).c_str());
    bool first = true;
    for (auto &kv : labels) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\n  \"samples\": [");
    if (samples.empty()) samples.push_back(violations ? "(stopped at a violation)" : "(none)");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(f, "\n  ]\n },\n \"assumptions\": [\"clang 18 -O1 with AddressSanitizer and part of UndefinedBehaviorSanitizer, 64-bit little-endian\"],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, violations);
    fclose(f);
  }
  printf("%s %s: %ld cases, %ld non-trivial (%zu distinct), %ld discarded, %.1f s\n", p.id, thorough ? "thorough" : "quick", ev, nt, hashes.size(), dis, now() - t0);
  for (auto &kv : labels) printf("  %-40s %ld\n", kv.first.c_str(), kv.second);
  if (unreproduced) printf("  %ld failure(s) in a worker did not reproduce in isolation\n", unreproduced);
  if (violations) { printf("%s\n", violationLine.c_str()); return 1; }
  return 0;
}
} // namespace vp
