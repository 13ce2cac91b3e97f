// Trivially copyable elements of SZ bytes, and an opaque typed allocator that counts what it gives and takes.
#pragma once
#include "opaque.h"
#ifndef SZ
#define SZ 12
#endif
#if SZ == 1
#define CELL 1
typedef uint8_t E;
#elif SZ == 8
#define CELL 8
typedef uint64_t E;
#else
#define CELL 4
struct E { uint32_t w[SZ / 4]; };
#endif
#define CPE (SZ / CELL)
static void evalue(u64 at, const char* n) {}
// an arbitrary element value, in specification storage
struct Val { u64 c[CPE]; };
static Val anyval() { Val v; for (int i = 0; i < CPE; i++) { v.c[i] = vc_any("value"); if (CELL < 8) vc_assume(v.c[i] < ((u64)1 << (CELL < 8 ? 8 * CELL : 8))); } return v; }
#if SZ == 12
static E mk(const Val& v) { return E{{(uint32_t)v.c[0], (uint32_t)v.c[1], (uint32_t)v.c[2]}}; }
VCI u64 vcell(const Val& v, u64 j) { return ite(j == 0, v.c[0], ite(j == 1, v.c[1], v.c[2])); }
static bool eq(const E& e, const Val& v) { return (e.w[0] == v.c[0]) & (e.w[1] == v.c[1]) & (e.w[2] == v.c[2]); }
#else
static E mk(const Val& v) { return (E)v.c[0]; }
VCI u64 vcell(const Val& v, u64 j) { return v.c[0]; }
static bool eq(const E& e, const Val& v) { return e == v.c[0]; }
#endif
// an opaque typed allocator; a request for at least one element is met (containers have no way to report that it is not)
template<class T> struct TA {
  typedef T value_type; u64 id;
  TA() noexcept { id = vc_any("default_id"); vc_assume(id < 65536); }
  explicit TA(u64 i) noexcept : id(i) {}
  template<class U> TA(const TA<U>& o) noexcept : id(o.id) {}
  bool operator==(const TA& r) const noexcept { return id == r.id; }
  bool operator!=(const TA& r) const noexcept { return id != r.id; }
  T* allocate(size_t n) noexcept {
    if (n == 0 && vc_fork(vc_any("null_for_zero") != 0)) return nullptr;
    vc_assume(n <= HEAP_HI / sizeof(T));
    u64 p = vc_newblock(id, n * sizeof(T)); vc_gset("nalloc", 0, vc_gget("nalloc", 0) + 1); vc_gset("lastblock", 0, p); vc_gset("lastsize", 0, n * sizeof(T)); return (T*)p; }
  void deallocate(T* p, size_t n) noexcept {
    u64 b = adr(p); vc_term(T_PTR, b);
    vc_check(live(b) != 0, "C02: storage is returned only while it is held"); vc_check(owner(b) == id, "C02: storage goes back to the allocator it came from"); vc_check(bsize(b) == n * sizeof(T), "C02: storage goes back with the element count it was obtained with");
    vc_gset("live", b, 0); vc_gset("nfree", 0, vc_gget("nfree", 0) + 1); }
};
static u64 newid(const char* s) { u64 id = vc_any(s); vc_assume(id < 65536); return id; }
static void world() { vc_world(CELL); vc_gzero("nalloc", 0); vc_gzero("nfree", 0); vc_gzero("lastblock", 0); vc_gzero("lastsize", 0); }
// blocks held, net
static u64 held() { return vc_gget("nalloc", 0) - vc_gget("nfree", 0); }
// cells of [p, p+n) equal f(offset)
template<class F> static void cells(const char* label, u64 p, u64 bytes, F f) {
  vc_check_all(T_IDX, label, [=](u64 k) { u64 o = k * CELL; return imp((k < HEAP_HI) & (o < bytes), vc_hload(p + o) == f(o)); }); }
// candidates for loops that copy [src, src+..) of the state s ascending to the newest block (or to a moving pointer), or fill it
static void inv_copy(u64 s, u64 src) {
  vc_inv([=](u64 it) {
    u64 b = vc_gget("lastblock", 0);
    vc_claim_all(T_IDX, [=](u64 k) { u64 o = k * CELL; return imp((k < HEAP_HI) & (o < it * SZ) & (it < HEAP_HI), vc_hload(b + o) == vc_hload_at(s, src + o)); });
    vc_claim_all(T_IDX, [=](u64 k) { u64 o = k * CELL; vc_term(T_ADDR, src + o); return imp((k < HEAP_HI) & (o < vc_gget("srcsize", 0)), vc_hload(src + o) == vc_hload_at(s, src + o)); });
    vc_claim_all(T_ADDR, [=](u64 a) { return imp((a < b) | (a - b >= vc_gget("lastsize", 0)), vc_hload(a) == vc_hload_at(s, a)); });
  });
}
static void inv_fill(Val v, u64 s) {
  vc_inv([=](u64 it) {
    u64 b = vc_gget("lastblock", 0);
    vc_claim_all(T_IDX, [=](u64 k) { u64 o = k * CELL; return imp((k < HEAP_HI) & (o < it * SZ) & (it < HEAP_HI), vc_hload(b + o) == vcell(v, k % CPE)); });
    vc_claim_all(T_IDX, [=](u64 k) { u64 o = k * CELL, z = vc_gget("lastsize", 0); return imp((k < HEAP_HI) & (it < HEAP_HI) & (o < z) & (o + it * SZ >= z), vc_hload(b + o) == vcell(v, k % CPE)); });   // filled from the end
    vc_claim_all(T_ADDR, [=](u64 a) { return imp((a < b) | (a - b >= vc_gget("lastsize", 0)), vc_hload(a) == vc_hload_at(s, a)); });
  });
}
