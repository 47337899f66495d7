#include "alt.h"
extern "C" __attribute__((visibility("default"))) void alt_observe(const Prog *g, Seen *out) { altObserve(*g, *out); }
