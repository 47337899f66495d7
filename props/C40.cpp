#include "common.h"
// C40: objects of classes of the user's own, made, used and disposed in random order.
static struct Seen { int what = 0, n = 0; void const *obj = NULL, *ptr = NULL; BKEnum attr = 0; BKInt value = 0, ret = 0; BKSize size = 0; BKUInt flags = 0; BKClass const *isa = NULL; bool again = false; std::string bytes; } seen;
static void rec(int w, void const *o) { seen.what = w; seen.n++; seen.obj = o; seen.flags = ((BKObject const *)o)->flags; seen.isa = ((BKObject const *)o)->isa; }
static BKInt hSetAttr(void *o, BKEnum a, BKInt v) { rec(1, o); seen.attr = a; seen.value = v; return seen.ret; }
static BKInt hGetAttr(void const *o, BKEnum a, BKInt *v) { rec(2, o); seen.attr = a; seen.ptr = v; if (v) *v = seen.value; return seen.ret; }
static BKInt hSetPtr(void *o, BKEnum a, void *p, BKSize s) { rec(3, o); seen.attr = a; seen.ptr = p; seen.size = s; return seen.ret; }
static BKInt hGetPtr(void const *o, BKEnum a, void *p, BKSize s) { rec(4, o); seen.attr = a; seen.ptr = p; seen.size = s; return seen.ret; }
static void hDispose(void *o) { rec(5, o); seen.bytes.assign((char *)o + sizeof(BKObject), (size_t)((BKObject *)o)->isa->instanceSize - sizeof(BKObject)); }
static void test(Case &c) {
  struct Obj { char *p = NULL; int cls = 0; bool heap = false, alive = false; std::string body, extra; std::vector<char> room; BKUInt flags = 0; };
  auto classes = new std::vector<BKClass>; auto objs = new std::vector<std::unique_ptr<Obj>>;
  int nc = (int)c.range(1, 4), made = 0, gone = 0; bool hard = false;
  for (int i = 0; i < nc; i++) {
    BKClass k; memset(&k, 0, sizeof k);
    k.instanceSize = sizeof(BKObject) + (c.chance(1, 4) ? 0 : c.chance(1, 8) ? (BKSize)c.range(1000, 100000) : (BKSize)c.range(1, 200));
    if (c.chance(3, 4)) k.dispose = hDispose;
    if (c.chance(3, 4)) k.setAttr = hSetAttr;
    if (c.chance(3, 4)) k.getAttr = hGetAttr;
    if (c.chance(3, 4)) k.setPtr = hSetPtr;
    if (c.chance(3, 4)) k.getPtr = hGetPtr;
    c.note("class %d: %ld bytes%s%s%s%s%s", i, (long)k.instanceSize, k.dispose ? ", dispose" : "", k.setAttr ? ", setAttr" : "", k.getAttr ? ", getAttr" : "", k.setPtr ? ", setPtr" : "", k.getPtr ? ", getPtr" : "");
    classes->push_back(k);
  }
  seen = Seen();
  auto tail = [&](BKClass const &k) { return (size_t)(k.instanceSize - (BKSize)sizeof(BKObject)); };
  auto intact = [&](const char *w) {
    for (size_t i = 0; i < objs->size(); i++) {
      Obj &o = *(*objs)[i]; if (!o.p) continue;
      BKClass const &k = (*classes)[o.cls];
      if (!o.alive) { if (!o.heap) for (BKSize b = 0; b < k.instanceSize; b++) CHECK(c, !o.p[b], "%s: byte %ld of disposed object %zu is %d", w, (long)b, i, o.p[b]); }
      else {
        CHECK(c, ((BKObject *)o.p)->flags == o.flags && ((BKObject *)o.p)->isa == &k, "%s: flags or class of object %zu changed", w, i);
        CHECK(c, !memcmp(o.p + sizeof(BKObject), o.body.data(), o.body.size()), "%s: contents of object %zu changed", w, i);
      }
      if (o.alive || !o.heap) CHECK(c, !memcmp(o.p + k.instanceSize, o.extra.data(), o.extra.size()), "%s: bytes behind object %zu changed", w, i);
    }
  };
  long base = vp_live; int onHeap = 0, ops = (int)c.range(2, 40);
  for (int i = 0; i < ops; i++) {
    int before = seen.n;
    auto untouched = [&](const char *w) { CHECK(c, seen.n == before, "%s called a function of the class", w); };
    switch (objs->empty() ? (int)c.draw(2) : c.weighted({2, 2, 1, 8, 3, 2})) {
      case 0: {                                                       // in place
        int k = (int)c.draw((uint32_t)nc); BKClass const &kl = (*classes)[k];
        std::unique_ptr<Obj> o(new Obj); o->cls = k; o->room.assign((size_t)kl.instanceSize + 16 + 8, (char)c.draw(256));
        o->p = (char *)(((uintptr_t)o->room.data() + 7) & ~(uintptr_t)7); o->extra.assign(o->p + kl.instanceSize, 8);
        std::string old(o->p, (size_t)kl.instanceSize);
        BKSize guard = c.chance(1, 5) ? kl.instanceSize + c.pick({-1, 1, 8, -(int)kl.instanceSize}) : kl.instanceSize;
        c.note("object %zu of class %d in place, %ld bytes", objs->size(), k, (long)guard);
        BKInt r = BKObjectInit(o->p, &kl, guard); untouched("initialising");
        if (guard != kl.instanceSize) { hard = true; CHECK(c, r < 0, "an object of the wrong size was accepted"); CHECK(c, !memcmp(o->p, old.data(), old.size()) && !memcmp(o->p + kl.instanceSize, o->extra.data(), 8), "refusing an object changed it"); break; }
        CHECK(c, r == 0, "initialising gives %d", r);
        o->body.assign(tail(kl), 0); o->flags = BKObjectFlagInitialized; o->alive = true; made++;
        CHECK(c, BKObjectInit(NULL, &kl, guard) < 0 && BKObjectInit(o->p, NULL, guard) < 0, "no object or no class accepted");
        objs->push_back(std::move(o));
        break;
      }
      case 1: {                                                       // on the heap
        int k = (int)c.draw((uint32_t)nc); BKClass const &kl = (*classes)[k]; BKSize extra = c.chance(1, 2) ? 0 : (BKSize)c.logRange(1, 100000);
        bool fail = c.chance(1, 6); long live = vp_live;
        c.note("object %zu of class %d allocated with %ld bytes more%s", objs->size(), k, (long)extra, fail ? ", which fails" : "");
        if (fail) vp_arm(0, 0);
        void *p = (void *)1; BKInt r = BKObjectAlloc(&p, &kl, extra); vp_arm(-1, -1); untouched("allocating");
        if (fail) { hard = true; CHECK(c, r == BK_ALLOCATION_ERROR && p == NULL && vp_live == live, "failing allocation gives %d", r); break; }
        CHECK(c, r == 0 && p && vp_live == live + 1, "allocating gives %d", r);
        std::unique_ptr<Obj> o(new Obj); o->cls = k; o->heap = true; o->p = (char *)p; o->alive = true; o->body.assign(tail(kl), 0); o->flags = BKObjectFlagInitialized | BKObjectFlagAllocated;
        if (extra) { o->extra.assign((size_t)extra, (char)c.draw(256)); memcpy(o->p + kl.instanceSize, o->extra.data(), (size_t)extra); }
        objs->push_back(std::move(o)); onHeap++; made++;
        break;
      }
      case 2: {                                                       // contents and flags of its own
        Obj &o = *c.pick(*objs).get(); if (!o.alive) break;
        uint32_t v = c.draw(1 << 30); for (auto &b : o.body) { v = v * 1664525u + 1013904223u; b = (char)(v >> 24); }
        memcpy(o.p + sizeof(BKObject), o.body.data(), o.body.size());
        o.flags = (o.flags & BKObjectFlagMask) | (v & BKObjectFlagUsableMask); ((BKObject *)o.p)->flags = o.flags;
        if (c.chance(1, 4)) { o.flags ^= BKObjectFlagLocked; ((BKObject *)o.p)->flags = o.flags; }
        c.note("contents set");
        break;
      }
      case 3: {                                                       // attributes
        Obj &o = *c.pick(*objs).get(); if (!o.alive) break;
        BKClass const &k = (*classes)[o.cls];
        BKEnum attr = (BKEnum)c.edgy(0, UINT32_MAX, {0, 1, BK_VOLUME, UINT32_MAX}); BKInt value = (BKInt)c.edgy(INT32_MIN, INT32_MAX, {0, -1, INT32_MAX, INT32_MIN});
        BKInt ret = (BKInt)c.edgy(INT32_MIN, INT32_MAX, {0, 1, -1, BK_INVALID_VALUE, BK_INVALID_ATTRIBUTE}); BKSize size = (BKSize)c.edgy(INT64_MIN, INT64_MAX, {0, 8, -1, INT64_MAX});
        int w = (int)c.draw(4); char local; BKInt got = ~value; seen.ret = ret; seen.value = w == 1 ? value : ~value; BKInt r = 0; bool has = false;
        switch (w) {
          case 0: has = k.setAttr; r = BKSetAttr(o.p, attr, value); break;
          case 1: has = k.getAttr; r = BKGetAttr(o.p, attr, &got); break;
          case 2: has = k.setPtr; r = BKSetPtr(o.p, attr, &local, size); break;
          default: has = k.getPtr; r = BKGetPtr(o.p, attr, &local, size); break;
        }
        c.note("%s %u", w == 0 ? "set attribute" : w == 1 ? "get attribute" : w == 2 ? "set pointer" : "get pointer", attr);
        if (!has) { hard = true; CHECK(c, r == BK_INVALID_STATE, "an object without the function gives %d", r); untouched("a missing function"); CHECK(c, got == ~value, "value was written"); break; }
        CHECK(c, seen.n == before + 1 && seen.what == w + 1 && seen.obj == o.p && seen.attr == attr, "function of the class not called as requested");
        CHECK(c, r == ret, "status %d became %d", ret, r);
        if (w == 0) CHECK(c, seen.value == value, "value %d became %d", value, seen.value);
        if (w == 1) CHECK(c, seen.ptr == &got && got == value, "value %d became %d", value, got);
        if (w >= 2) CHECK(c, seen.ptr == &local && seen.size == size, "pointer or size changed");
        break;
      }
      case 4: {                                                       // disposed, also again
        Obj &o = *c.pick(*objs).get(); if (!o.p) break;
        BKClass const &k = (*classes)[o.cls]; long live = vp_live;
        c.note("disposed%s", o.alive ? "" : " again");
        bool alive = o.alive; BKUInt flags = o.flags; std::string body = o.body; char *p = o.p;
        o.alive = false; if (o.heap) o.p = NULL;
        BKDispose(p);
        if (alive && k.dispose) CHECK(c, seen.n == before + 1 && seen.what == 5 && seen.obj == p && seen.flags == flags && seen.isa == &k && seen.bytes == body, "dispose function not called with the intact object");
        else { if (!alive) hard = true; untouched("disposing"); }
        CHECK(c, vp_live == live - (o.heap ? 1 : 0), "disposing freed %ld blocks", live - vp_live);
        if (o.heap) onHeap--;
        if (alive) gone++;
        break;
      }
      default: {                                                      // nothing
        BKInt v = 5; void *p = (void *)1; BKClass none; memset(&none, 0, sizeof none);
        CHECK(c, BKSetAttr(NULL, BK_VOLUME, 1) == BK_INVALID_STATE && BKGetAttr(NULL, BK_VOLUME, &v) == BK_INVALID_STATE && BKSetPtr(NULL, BK_SAMPLE, &v, 4) == BK_INVALID_STATE && BKGetPtr(NULL, BK_SAMPLE, &v, 4) == BK_INVALID_STATE && v == 5, "no object accepted");
        BKDispose(NULL);
        CHECK(c, BKObjectAlloc(NULL, &(*classes)[0], 0) < 0 && BKObjectAlloc(&p, NULL, 0) < 0 && p == NULL, "no class or no place accepted");
        CHECK(c, BKObjectAlloc(&p, &none, 0) < 0 && p == NULL, "a class without size accepted");
        untouched("no object");
      }
    }
    CHECK(c, vp_live == base + onHeap, "%ld blocks in use, expected %d", vp_live - base, onHeap);
    intact("operation");
  }
  for (auto &o : *objs) if (o->alive) { char *p = o->p; if (o->heap) o->p = NULL; o->alive = false; BKDispose(p); }
  CHECK(c, vp_live == base, "%ld blocks left", vp_live - base);
  if (made > 1 && gone && hard) c.nontrivial();
  delete classes; delete objs;
}
std::vector<vp::Property> vp_properties() {
  return {{"C40", "up to four classes with any of the five functions, objects in place and on the heap with extra bytes, up to 40 operations, failing allocations, wrong sizes, missing functions; non-trivial: two objects made, one disposed and one request that has to be refused",
    200000, 4000000, test, {}}};
}
VP_MAIN
