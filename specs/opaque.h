// Opaque sub-allocators: nothing but their contract is known to the code under verification.
#pragma once
#include "vc.h"
enum Ev { EV_ALLOC = 1, EV_DEALLOC, EV_CONS, EV_DEST, EV_CTOR, EV_DTOR, EV_LOCK, EV_UNLOCK, EV_SYSALLOC, EV_SYSFREE, EV_TCTOR, EV_TDTOR, EV_OUT, EV_OUTSTR };
#define HEAP_LO ((u64)4096)
#define HEAP_HI ((u64)1 << 46)
#define OWNKEY(id, p) (((id) << 48) ^ (p))

// ---- event log: what the opaque parts were asked to do, in order
static void vc_log(u64 k, u64 id, u64 a, u64 b, u64 r) {
  u64 n = vc_gget("n", 0);
  vc_gset("lk", n, k); vc_gset("li", n, id); vc_gset("la", n, a); vc_gset("lb", n, b); vc_gset("lr", n, r);
  vc_gset("n", 0, n + 1);
}
VCI u64 log_n() { return vc_gget("n", 0); }
VCI u64 log_k(u64 i) { return vc_gget("lk", i); }
VCI u64 log_i(u64 i) { return vc_gget("li", i); }
VCI u64 log_a(u64 i) { return vc_gget("la", i); }
VCI u64 log_b(u64 i) { return vc_gget("lb", i); }
VCI u64 log_r(u64 i) { return vc_gget("lr", i); }
VCI bool log_is(u64 i, u64 k, u64 id, u64 a, u64 b) { return (log_k(i) == k) & (log_i(i) == id) & (log_a(i) == a) & (log_b(i) == b); }
static void log_reset() { vc_gset("n", 0, 0); }

// ---- the world: arbitrary blocks, handed out by arbitrary allocators, are live
VCI bool disjoint(u64 p, u64 n, u64 q, u64 m) { return (p + n <= q) | (q + m <= p); }
VCI u64 live(u64 p) { return vc_gget("live", p); }
VCI u64 bsize(u64 p) { return vc_gget("size", p); }
VCI u64 owner(u64 p) { return vc_gget("owner", p); }
static void vc_world(u64 cell = 8) {
  vc_cell(cell);
  vc_gmap("live"); vc_gmap("size"); vc_gmap("owner"); vc_gmap("own");
  vc_gmap("lk"); vc_gmap("li"); vc_gmap("la"); vc_gmap("lb"); vc_gmap("lr"); vc_gzero("n", 0);
  vc_gmap("idlive");
  vc_assume_all(T_PTR, [](u64 p) {
    return imp(live(p) != 0, (p >= HEAP_LO) & (p < HEAP_HI) & (bsize(p) < HEAP_HI) & (p + bsize(p) <= HEAP_HI) & ((p & 15) == 0)); });
  vc_assume_all2(T_PTR, [](u64 p, u64 q) {
    return imp((live(p) != 0) & (live(q) != 0) & (p != q), disjoint(p, bsize(p), q, bsize(q))); });
  vc_term(T_PTR, 0);
}
// a new block of n bytes for allocator id; 0 when the allocation fails
static u64 vc_newblock(u64 id, u64 n, u64 align = 16) {
  u64 p = vc_any("block");
  vc_assume(p >= HEAP_LO); vc_assume(p < HEAP_HI); vc_assume(n <= HEAP_HI - p); vc_assume((p & (align - 1)) == 0);
  vc_assume(live(p) == 0);
  vc_assume_all(T_PTR, [=](u64 q) { return imp((live(q) != 0) & (q != p), disjoint(p, n, q, bsize(q))); });
  vc_gset("live", p, 1); vc_gset("size", p, n); vc_gset("owner", p, id);
  vc_hhavoc(p, n);
  vc_term(T_PTR, p);
  return p;
}
// an arbitrary block that is already live
static u64 vc_someblock(const char* name, u64 id, u64 n) {
  u64 p = vc_any(name);
  vc_term(T_PTR, p);
  vc_assume(live(p) != 0); vc_assume(bsize(p) == n); vc_assume(owner(p) == id);
  return p;
}
static u64 oa_allocate(u64 id, u64 n) {
  if (vc_fork(vc_any("out_of_memory") != 0)) { vc_log(EV_ALLOC, id, n, 0, 0); return 0; }
  u64 p = vc_newblock(id, n);
  vc_log(EV_ALLOC, id, n, 0, p);
  return p;
}
static void oa_deallocate(u64 id, u64 p, u64 n) {
  vc_term(T_PTR, p);
  vc_check(live(p) != 0, "sub-allocator is given back a block that is live");
  vc_check(owner(p) == id, "block goes back to the allocator that supplied it");
  vc_check(bsize(p) == n, "block goes back with the size it was obtained with");
  vc_gset("live", p, 0);
  vc_log(EV_DEALLOC, id, p, n, 0);
}
static bool oa_owns(u64 id, u64 p) {
  vc_term(T_PTR, p);
  bool r = vc_gget("own", OWNKEY(id, p)) != 0;
  vc_assume(imp(live(p) != 0, r == (owner(p) == id)));
  return r;
}
enum Caps { C_OWNS = 1, C_MAX = 2, C_CONS = 4, C_FIXED = 8 };  // C_FIXED: instances of this type are always part K
// copies refer to the same memory (what the standard calls equal allocators)
template<int K, unsigned CAPS> struct OA {
  u64 id;
  OA() noexcept {
    if constexpr ((CAPS & C_FIXED) != 0) id = K;
    else { id = vc_any("id"); vc_assume(id < 65536); vc_assume(vc_gget("idlive", id) == 0); vc_gset("idlive", id, 1); vc_log(EV_CTOR, id, 0, 0, 0); }
  }
  explicit OA(u64 i) noexcept : id(i) {}
  OA(const OA&) noexcept = default;
  OA(OA&&) noexcept = default;
  OA& operator=(const OA&) noexcept = default;
  OA& operator=(OA&&) noexcept = default;
  bool operator==(const OA& r) const noexcept { return id == r.id; }
  bool operator!=(const OA& r) const noexcept { return id != r.id; }
  void* allocate(size_t n) noexcept { return (void*)oa_allocate(id, n); }
  void deallocate(void* p, size_t n) noexcept { oa_deallocate(id, adr(p), n); }
  template<unsigned C = CAPS, std::enable_if_t<(C & C_OWNS) != 0, int> = 0> bool owns(void* p) const noexcept { return oa_owns(id, adr(p)); }
  template<unsigned C = CAPS, std::enable_if_t<(C & C_MAX) != 0, int> = 0> size_t max_size() const noexcept { return vc_fun1("max_size", id); }
  template<typename T, typename... Args, unsigned C = CAPS, std::enable_if_t<(C & C_CONS) != 0, int> = 0>
  void construct(T* p, Args&&... args) noexcept { vc_log(EV_CONS, id, adr(p), sizeof...(Args), 0); ::new (p) T(std::forward<Args>(args)...); }
  template<typename T, unsigned C = CAPS, std::enable_if_t<(C & C_CONS) != 0, int> = 0>
  void destroy(T* p) noexcept { vc_log(EV_DEST, id, adr(p), 0, 0); p->~T(); }
};
// an element whose construction and destruction are observable
struct Obj {
  u64 v;
  Obj(u64 x) noexcept : v(x) { vc_log(EV_TCTOR, 0, adr(this), x, 0); }
  Obj(const Obj& o) noexcept : v(o.v) { vc_log(EV_TCTOR, 0, adr(this), o.v, 0); }
  ~Obj() { vc_log(EV_TDTOR, 0, adr(this), 0, 0); }
};
