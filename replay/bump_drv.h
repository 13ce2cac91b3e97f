#pragma once
#include "drv.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/stack_allocator.h"
static u64 R16(u64 n) { return (n + 15) & ~(u64)15; }
template<size_t N> struct LinH { typedef ktl::linear_allocator<N> A; std::unique_ptr<A> a{new A}; char* lo; 
  LinH() { locate(); } void locate() { char* o = (char*)a.get(); lo = nullptr; for (char* p = o; p < o + sizeof(A); p++) if (a->owns(p)) { lo = p; break; } if (!lo) lo = o; }
  A& get() { return *a; } };
template<size_t N> struct StkH { typedef ktl::stack_allocator<N> A; std::unique_ptr<ktl::stack<N>> s{new ktl::stack<N>}; A a{*s}, b{s.get()}, c{a}; char* lo; StkH() : lo(s->Data) {} void locate() { lo = s->Data; }
  A& get() { switch (below(3)) { case 0: return a; case 1: return b; } return c; } };
struct Live { char* p; u64 n; unsigned char b; };
template<class Hd, size_t N> static void history() {
  Hd h; std::vector<Live> live; u64 cur = 0, sum = 0; int len = 5 + below(60); bool lifo = chance(40); unsigned char tag = 1;
  auto alloc = [&](u64 n) {
    char* p = (char*)h.get().allocate(n); step("allocate(%llu) = %s%lld", (unsigned long long)n, p ? "+" : "null ", p ? (long long)(p - h.lo) : 0);
    u64 r = R16(n); bool fits = n <= N && cur < N && r <= N - cur; u64 livebytes = 0; for (auto& l : live) livebytes += l.n;
    if (!p) { CK("A01 A02", !fits, "allocate(%llu) failed although %llu bytes are available", (unsigned long long)n, (unsigned long long)(N - cur)); }
    else {
      CK("A01 A03", n <= N && n <= N - livebytes, "allocate(%llu) was served from %llu bytes of which %llu are in use", (unsigned long long)n, (unsigned long long)N, (unsigned long long)livebytes);
      CK("A01 A03 A04", p >= h.lo && p + n <= h.lo + N && p <= h.lo + N, "the block [%lld, +%llu) is outside the buffer of %llu bytes", (long long)(p - h.lo), (unsigned long long)n, (unsigned long long)N);
      CK("A01", ((u64)p & 15) == 0, "the block at %lld is not aligned", (long long)(p - h.lo));
      if (n > N) fail("allocate(%llu) was served", (unsigned long long)n);
      for (auto& l : live) CK("A01 A02 A03", n == 0 || l.n == 0 || p + n <= l.p || l.p + l.n <= p, "the block [%lld, +%llu) overlaps the live block [%lld, +%llu)", (long long)(p - h.lo), (unsigned long long)n, (long long)(l.p - h.lo), (unsigned long long)l.n);
      if (n) CK("A04", h.get().owns(p) && h.get().owns(p + n - 1) && h.get().owns(p + n / 2), "a live block is not owned");
      if (p < h.lo || p + n > h.lo + N) fail("the block is outside the buffer");
      paint(p, n, tag); live.push_back({p, n, tag}); tag = tag * 7 + 3; u64 end = (u64)(p - h.lo) + r; if (end > cur) cur = end; sum += r;
    }
  };
  auto release = [&](size_t i) {
    Live l = live[i]; live.erase(live.begin() + i); step("deallocate(+%lld, %llu)", (long long)(l.p - h.lo), (unsigned long long)l.n);
    CK("A01 A02 A03", painted(l.p, l.n, l.b), "the contents of the live block [%lld, +%llu) were disturbed", (long long)(l.p - h.lo), (unsigned long long)l.n);
    u64 r = R16(l.n); h.get().deallocate(l.p, l.n); if ((u64)(l.p - h.lo) + r == cur) cur -= r; sum -= r; if (sum == 0) cur = 0;
  };
  auto intact = [&] { for (auto& l : live) CK("A01 A02 A03", painted(l.p, l.n, l.b), "the contents of the live block [%lld, +%llu) were disturbed", (long long)(l.p - h.lo), (unsigned long long)l.n); };
  auto owning = [&] { for (int k = 0; k < 8; k++) { char* p = h.lo + (i64)below(N + 80) - 40; if (k == 0) p = h.lo; if (k == 1) p = h.lo - 1; if (k == 2) p = h.lo + N; if (k == 3) p = h.lo + N - 1; if (k == 4) p = nullptr; if (k == 5) p = (char*)rnd();
    bool in = p >= h.lo && p < h.lo + N; CK("A04", h.get().owns(p) == in, "owns(buffer%+lld) is %d", (long long)(p - h.lo), (int)!in); } };
  CK("A13", h.get() == h.get() && !(h.get() != h.get()), "an allocator is not equal to itself"); { Hd g; CK("A13", !(h.get() == g.get()) && h.get() != g.get(), "allocators with different buffers are equal"); }
  for (int i = 0; i < len; i++) {
    u64 k = below(10);
    if (k < 5) { alloc(size_near({N, N - cur, 16, N / 2})); }
    else if (k < 9) { if (!live.empty()) release(lifo ? live.size() - 1 : chance(50) ? live.size() - 1 : below(live.size())); }
    else owning();
    intact();
  }
  if (chance(50)) while (!live.empty()) release(chance(50) ? live.size() - 1 : below(live.size())); else while (!live.empty()) release(live.size() - 1);
  if (N % 16 == 0) { step("every block was returned"); char* p = (char*)h.get().allocate(N); CK("A02 A03", p != nullptr, "after every block was returned the whole buffer is not available"); if (p) { CK("A01 A02", p == h.lo, "the whole buffer does not start at its start"); if (p == h.lo) paint(p, N, 3); h.get().deallocate(p, N); } }
}
template<size_t N> static void moves() {
  typedef ktl::linear_allocator<N> A; std::unique_ptr<A> a(new A), c; std::vector<std::pair<void*, u64>> l; u64 m = R16(N) > N ? R16(N) - 16 : N; if (m == 0) return;
  for (int i = (int)below(5); i > 0; i--) { u64 n = below(N / 3 + 1); void* p = a->allocate(n); if (p) l.push_back({p, n}); }
  step("use, return all, move"); while (!l.empty()) { a->deallocate(l.back().first, l.back().second); l.pop_back(); }
  if (chance(50)) c.reset(new A(std::move(*a))); else { c.reset(new A); void* p = c->allocate(m); step("target in use"); if (p && chance(50)) c->deallocate(p, m); *c = std::move(*a); }
  char* p = (char*)c->allocate(m); CK("A01 A02", p != nullptr, "a moved-to allocator does not have its whole buffer available"); if (p) { CK("A01 A04", c->owns(p) && c->owns(p + m - 1) && !a->owns(p), "a moved-to allocator gives out memory that is not its own"); paint(p, m, 1); CK("A01 A02", c->allocate(m) == nullptr, "a moved-to allocator gives out its memory twice");
    char* q = (char*)a->allocate(m); if (q) { CK("A01", a->owns(q) && q != p, "the source of a move gives out the target's memory"); paint(q, m, 2); CK("A01", painted(p, m, 1), "allocators share a buffer after a move"); a->deallocate(q, m); }
    c->deallocate(p, m); p = (char*)c->allocate(m); CK("A01 A02", p != nullptr, "returned space of a moved-to allocator is not available again"); if (p) c->deallocate(p, m); 
    u64 n1 = 16; if (m >= 48) { char* x = (char*)c->allocate(n1); char* y = (char*)c->allocate(n1); if (x && y) { c->deallocate(x, n1); char* z = (char*)c->allocate(m - 32 ? m - 32 : 16); CK("A01 A02", !z || z + 1 <= y || z >= y + 16, "a moved-to allocator gave out space that is in use"); if (z) CK("A01 A02", z >= y + 16 || z + (m - 32) <= y, "a moved-to allocator gave out space that is in use"); } }
  }
}
template<size_t N> static void compare() { typedef ktl::linear_allocator<N> A; std::unique_ptr<A> a(new A), b(new A); if (chance(50)) a->allocate(N); step("compare two allocators"); CK("A13", *a == *a && !(*a != *a), "a linear allocator differs from itself"); CK("A13", !(*a == *b) && *a != *b && *b != *a, "two linear allocators with buffers of their own are equal"); }
#define B(N) TEST("linear compare " #N, compare<N>()) TEST("linear " #N, (history<LinH<N>, N>())) TEST("stack " #N, (history<StkH<N>, N>())) TEST("linear move " #N, moves<N>())
B(1) B(16) B(20) B(64) B(100) B(1024) B(4096) B(8191)
