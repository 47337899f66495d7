#include "alt.h"
#include <dlfcn.h>
// C36: results do not depend on the compiler, the optimisation, the signedness of char or what the stack contained.
// check.sh builds the library in the further ways below as shared objects, each with the same observing code.
static const char *WAYS[] = {"gcc -O2 (as the project builds it)", "gcc -O0, unsigned char, variables filled with a pattern", "gcc -O3", "clang -O3, variables filled with zero"};
static const int NW = 4;
typedef void (*Observe)(const Prog *, Seen *);
static Observe way(int i) {
  static Observe known[NW];
  if (!known[i]) {
    const char *dir = getenv("VP_ALT");
    std::string f = std::string(dir ? dir : ".") + "/alt" + std::to_string(i) + ".so";
    void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
    known[i] = (Observe)dlsym(h, "alt_observe");
    if (!known[i]) _exit(3);
  }
  return known[i];
}
static void test(Case &c) {
  Prog g = genProg(c);
  int w = c.draw(NW);
  describeProg(c, g);
  c.note("other build: %s", WAYS[w]);
  Seen a, b;
  altObserve(g, a);
  way(w)(&g, &b);
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  CHECK(c, a.size() == b.size() && i == a.size(), "observation %zu of %zu (%zu) is %lld, built with %s %lld", i, a.size(), b.size(), (long long)(i < a.size() ? a[i] : 0), WAYS[w], (long long)(i < b.size() ? b[i] : 0));
  c.label(WAYS[w]);
  size_t nz = 0; for (auto x : a) nz += x != 0;
  if (nz > 500) c.nontrivial();
}
std::vector<vp::Property> vp_properties() {
  return {{"C36", "a random scene with operations (some with extreme values), requests of random sizes, a generate-to-time, the rendering written to and loaded from a WAVE file, raw data and note periods, observed with the library built here and built in one of four other ways (compiler, optimisation, signedness of char, content of fresh stack variables); non-trivial: over 500 observations differ from zero", 50000, 500000, test, {}}};
}
VP_MAIN
