// Small property-based testing engine: choice tapes, forked isolation, shrinking, replay.
#ifndef VP_ENGINE_H
#define VP_ENGINE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

namespace vp {

struct Failure { std::string msg; };
struct Discard {};

// A test case: every random choice is drawn from here and recorded on the tape.
struct Case {
  std::vector<uint32_t> in;   // tape being replayed (may be shorter than needed)
  bool replay = false;
  uint64_t rng = 1;
  size_t pos = 0;
  bool thorough = false;
  bool verbose = false;
  bool nontrivialFlag = false;
  std::string desc;           // human readable description of the case
  std::vector<std::string> labels;

  uint32_t draw(uint32_t n);                  // uniform in [0,n)  (n>=1)
  int64_t range(int64_t lo, int64_t hi);      // inclusive, shrinks towards lo
  bool chance(int num, int den);              // shrinks towards false
  bool flip() { return draw(2) != 0; }
  // value near boundaries or uniform
  int64_t edgy(int64_t lo, int64_t hi, std::initializer_list<int64_t> edges);
  int64_t logRange(int64_t lo, int64_t hi);   // log-uniform magnitudes, lo>=0
  template <class T> T pick(std::initializer_list<T> l) { return l.begin()[draw((uint32_t)l.size())]; }
  template <class T> const T &pick(const std::vector<T> &l) { return l[draw((uint32_t)l.size())]; }
  // weighted index
  int weighted(std::initializer_list<int> w);

  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void label(const std::string &s) { labels.push_back(s); }
  void nontrivial() { nontrivialFlag = true; }
  [[noreturn]] void discard() { throw Discard{}; }
};

struct Finding {               // a recorded genuine defect: a fixed scenario, run every time
  const char *key;             // identifies the entry in known_findings.jsonl
  std::function<void(Case &)> run;  // fails while the defect is present
};

struct Property {
  const char *id;
  const char *rule;            // how cases are made, what makes one non-trivial
  int quickCases, thoroughCases;
  std::function<void(Case &)> test;
  std::vector<Finding> findings;
  const char *level = "exploration";
  // optional fixed scenarios (regression corpus) executed before generation
  std::vector<std::function<void(Case &)>> fixed;
  int cpuLimit = 10;            // CPU seconds one case may take
};

int main_impl(int argc, char **argv, std::vector<Property> props);

} // namespace vp

#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)
#endif
