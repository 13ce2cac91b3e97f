#pragma once
#include "drv.h"
#include "ktl/allocators/type_allocator.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/null_allocator.h"
#include "ktl/allocators/mallocator.h"
namespace wrd {
template<int N> struct Bytes { unsigned char b[N]; };
struct Big { u64 v; unsigned char b[4088]; };
// one operation of a wrapper reaches allocator `who` once, unchanged
template<class W> void ops(W& w, int who, const char* name) {
  struct L { char* p; u64 n; }; std::vector<L> live; int len = 4 + below(20);
  for (int i = 0; i < len; i++) { u64 k = below(10);
    if (k < 4) { u64 n = size_near({0, 64, 1000}); if (chance(30)) g_failnext[who] = 1; bool f = rec_will_fail(who, n); g_ev.clear(); char* p = (char*)w.allocate(n); step("%s allocate(%llu) = %p", name, (unsigned long long)n, p); g_failnext.clear(); CK("A03 A11 A12", g_ev.size() == 1 && g_ev[0].k == 'a' && g_ev[0].who == who && g_ev[0].n == n && g_ev[0].p == p && (p == nullptr) == f, "%s: allocate does not pass request and answer on", name); if (p && g_live.count(p) && g_live[p].n >= n) { if (n <= 4096) paint(p, n, 7); live.push_back({p, n}); } }
    else if (k < 7) { if (!live.empty()) { size_t j = below(live.size()); L l = live[j]; live.erase(live.begin() + j); step("%s deallocate(%p, %llu)", name, l.p, (unsigned long long)l.n); g_ev.clear(); w.deallocate(l.p, l.n); CK("A11 A12", g_ev.size() == 1 && g_ev[0].k == 'd' && g_ev[0].who == who && g_ev[0].p == l.p && g_ev[0].n == l.n, "%s: deallocate does not pass the block on", name); } }
    else if (k == 7) { char* p = live.empty() || chance(20) ? (char*)rnd() : live[0].p + below(3); CK("A04 A12", w.owns(p) == rec_owns(who, p), "%s: owns(%p) differs", name, p); CK("A12", w.max_size() == 1000 + who, "%s: max_size differs", name); }
    else for (auto& l : live) if (l.n >= sizeof(Counted)) { i64 a = Counted::alive, m = Counted::made; u64 v = rnd(); g_ev.clear(); w.construct((Counted*)l.p, v); CK("A12", g_ev.size() == 1 && g_ev[0].k == 'c' && g_ev[0].who == who && g_ev[0].p == l.p && Counted::made == m + 1 && ((Counted*)l.p)->v == v, "%s: construct does not reach the allocator once, unchanged", name); g_ev.clear(); w.destroy((Counted*)l.p); CK("A12", g_ev.size() == 1 && g_ev[0].k == 'x' && g_ev[0].p == l.p && Counted::alive == a, "%s: destroy does not reach the allocator once", name); Counted::alive = a; break; } }
  for (auto& l : live) w.deallocate(l.p, l.n);
}
template<class W> void equalities(W& a, W& b, bool e, const char* name) { CK("A13", (a == b) == e && (b == a) == e, "%s: equality is %d instead of %d", name, (int)(a == b), (int)e); CK("A13", (a != b) == !e && (b != a) == !e, "%s: inequality is not the negation of equality", name); CK("A13", a == a && !(a != a), "%s: an allocator differs from itself", name); }
template<class T> void typed() {
  typedef ktl::type_allocator<T, Rec> W; rec_reset(); live_reset(); int who = 1 + below(3), o = 1 + below(3); W w{Rec(who)}; const u64 S = sizeof(T); struct L { T* p; u64 n; }; std::vector<L> live; int len = 4 + below(20);
  for (int i = 0; i < len; i++) { u64 k = below(10);
    if (k < 5) { u64 lim = ~(u64)0 / S; u64 n = size_near({0, 16, lim, lim + 1, lim / 2, ((u64)1 << 63) / S, lim + 16}); if (chance(20)) g_failnext[who] = 1; bool f = n > lim || rec_will_fail(who, n * S); g_ev.clear(); T* p = w.allocate(n); step("typed(%llu) allocate(%llu) = %p", (unsigned long long)S, (unsigned long long)n, p); g_failnext.clear(); CK("A03 A12", (p == nullptr) == f, f ? "typed: %llu elements cannot be supplied but were" : "typed: %llu elements can be supplied but were refused", (unsigned long long)n); if (n <= lim) CK("A12 A03", g_ev.size() == 1 && g_ev[0].k == 'a' && g_ev[0].n == n * S && g_ev[0].p == p, "typed: %llu elements were not passed on as %llu bytes", (unsigned long long)n, (unsigned long long)(n * S)); if (p && !f) live.push_back({p, n}); else if (p) fail("typed: a block smaller than %llu elements was supplied", (unsigned long long)n); }
    else if (k < 8) { if (!live.empty()) { L l = live.back(); live.pop_back(); step("typed deallocate(%llu)", (unsigned long long)l.n); g_ev.clear(); w.deallocate(l.p, l.n); CK("A12", g_ev.size() == 1 && g_ev[0].k == 'd' && g_ev[0].p == l.p && g_ev[0].n == l.n * S, "typed: deallocate does not pass the block on with its byte count"); } }
    else { T* p = live.empty() ? (T*)rnd() : live[0].p; CK("A04 A12", w.owns(p) == rec_owns(who, p), "typed: owns differs"); CK("A12", w.max_size() == (1000 + who) / S, "typed: max_size is %zu", (size_t)w.max_size()); if constexpr (std::is_same_v<T, Counted>) { if (!live.empty() && live[0].n) { i64 a = Counted::alive, m = Counted::made; g_ev.clear(); w.construct(live[0].p, (u64)8); CK("A12", g_ev.size() == 1 && Counted::made == m + 1 && live[0].p->v == 8, "typed: construct does not reach the allocator once"); g_ev.clear(); w.destroy(live[0].p); CK("A12", g_ev.size() == 1 && Counted::alive == a, "typed: destroy does not reach the allocator once"); } } } }
  W c(w), x{Rec(o)}; CK("A12", c.get_allocator() == w.get_allocator(), "typed: a copy has another allocator"); equalities(w, c, true, "typed"); equalities(w, x, who == o, "typed"); ktl::type_allocator<Bytes<7>, Rec> r(w); CK("A13", (r == w) && !(r != w) && (r == x) == (who == o) && (r != x) == (who != o), "typed: equality across element types"); CK("A12", r.get_allocator() == w.get_allocator(), "typed: a rebound copy has another allocator"); c = x; CK("A12", c.get_allocator() == x.get_allocator(), "typed: assignment"); W mv(std::move(x)); CK("A12", mv.get_allocator().id == o, "typed: move"); c = std::move(w); CK("A12", c.get_allocator().id == who, "typed: move assignment");
  for (auto& l : live) c.deallocate(l.p, l.n);
}
static void refs() { rec_reset(); live_reset(); int i = 1 + below(3), j = 1 + below(3); Rec a(i), b(j), a2(i); ktl::reference<Rec> r(a), s(b), c(r), t(a2); ops(r, i, "reference"); CK("A12", &r.get_allocator() == &a && &c.get_allocator() == &a, "a reference does not refer to its allocator"); ops(c, i, "copied reference"); equalities(r, c, true, "reference"); equalities(r, s, false, "reference"); equalities(r, t, false, "reference");
  c = s; CK("A12", &c.get_allocator() == &b, "an assigned reference does not refer to the other's allocator"); ops(c, j, "assigned reference"); ktl::reference<Rec> m(std::move(r)); CK("A12", &m.get_allocator() == &a, "a moved reference"); r = std::move(s); CK("A12", &r.get_allocator() == &b, "a move-assigned reference"); ops(r, j, "move-assigned reference"); CK("A12", a.id == i && b.id == j, "assigning a reference changed an allocator"); }
static void globals() { rec_reset(); live_reset(); int i = 1 + below(3); ktl::global<Rec> g, h; g.set_allocator(Rec(i)); ops(g, i, "global"); ops(h, i, "another global"); ktl::global<Rec> c(g), m(std::move(h)); CK("A12", &c.get_allocator() == &g.get_allocator() && &m.get_allocator() == &g.get_allocator(), "globals do not refer to the one static allocator"); c = g; m = std::move(c); ops(m, i, "assigned global"); equalities(g, m, true, "global"); }
static void threads1() { rec_reset(); live_reset(); int i = 1 + below(3), j = 1 + below(3); ktl::threaded<Rec> t{Rec(i)}, u(Rec{j}); ops(t, i, "threaded"); ops(u, j, "threaded"); equalities(t, u, i == j, "threaded"); }
static void misc() { ktl::null_allocator n, n2(n); u64 k = size_near({0, 16}); CK("A03 A12", n.allocate(k) == nullptr, "the null allocator served %llu", (unsigned long long)k); equalities(n, n2, true, "null"); n.deallocate(nullptr, 0); CK("A04", !n.owns(&k), "the null allocator owns memory");
  ktl::mallocator m, m2(m); equalities(m, m2, true, "mallocator"); u64 s = size_near({0, 64, 4096}); char* p = (char*)m.allocate(s); step("mallocator %llu = %p", (unsigned long long)s, p); if (p) { CK("A03 U01", s < ((u64)1 << 40), "the mallocator served %llu bytes", (unsigned long long)s); CK("A12 U01", ((u64)p & 15) == 0, "not aligned"); if (s < (1 << 20)) paint(p, s, 1); m2.deallocate(p, s); } m.deallocate(nullptr, 0); }
// an allocator that hands out addresses only, so that any size can be asked for
struct Huge { static u64 &an() { static u64 v; return v; } static u64 &dn() { static u64 v; return v; } static void*& dp() { static void* v; return v; } static int& calls() { static int v; return v; }
  void* allocate(size_t n) noexcept { an() = n; calls()++; return (void*)(uintptr_t)0x7000000000; } void deallocate(void* p, size_t n) noexcept { dn() = n; dp() = p; calls()++; } bool operator==(const Huge&) const noexcept { return true; } bool operator!=(const Huge&) const noexcept { return false; } };
template<class T> static void huge() { ktl::type_allocator<T, Huge> t; const u64 S = sizeof(T), M = ~(u64)0 / S; u64 n = size_near({0, 1, M, M + 1, (u64)1 << 32, ((u64)1 << 32) / S, ((u64)1 << 31) / S, (u64)1 << 16}); if (chance(30)) n = rnd() >> below(60); Huge::calls() = 0; T* p = t.allocate(n); step("allocate(%llu) of %llu bytes each = %p", (unsigned long long)n, (unsigned long long)S, (void*)p);
  if (n > M) { CK("A03 A12", p == nullptr, "a request whose bytes cannot be counted was served"); return; } CK("A03 A12", (u64)p == 0x7000000000 && Huge::calls() == 1 && Huge::an() == n * S, "%llu objects were asked for as %llu bytes", (unsigned long long)n, (unsigned long long)Huge::an()); t.deallocate(p, n); CK("A12", Huge::calls() == 2 && Huge::dn() == n * S && Huge::dp() == (void*)p, "%llu objects were given back as %llu bytes", (unsigned long long)n, (unsigned long long)Huge::dn()); }
TEST("typed, any size", huge<Bytes<1>>(); huge<Bytes<3>>(); huge<u64>(); huge<Bytes<12>>(); huge<Bytes<4096>>())
TEST("typed 1", typed<Bytes<1>>()) TEST("typed 3", typed<Bytes<3>>()) TEST("typed 8", typed<Counted>()) TEST("typed 12", typed<Bytes<12>>()) TEST("typed 4096", typed<Big>()) TEST("reference", refs()) TEST("global", globals()) TEST("threaded", threads1()) TEST("null and mallocator", misc())
}
// the lock: no two threads are inside the wrapped allocator at once, and it is free again after every call
namespace lck {
struct Probe { std::atomic<int>* in; std::atomic<int>* bad; int* fails; explicit Probe(std::atomic<int>* i, std::atomic<int>* b, int* f) noexcept : in(i), bad(b), fails(f) {} bool operator==(const Probe&) const noexcept { return true; } bool operator!=(const Probe&) const noexcept { return false; }
  void enter() { if (in->fetch_add(1) != 0) (*bad)++; for (int i = 0; i < 50; i++) std::this_thread::yield(); if (in->load() != 1) (*bad)++; in->fetch_sub(1); }
  void* allocate(size_t n) { enter(); if ((*fails)++ % 3 == 0) return nullptr; return malloc(n ? n : 1); } void deallocate(void* p, size_t n) { enter(); free(p); } };
static void run() { std::atomic<int> in{0}, bad{0}, done{0}; int fails = 0; ktl::threaded<Probe> t(&in, &bad, &fails), other(&in, &bad, &fails); (void)other; constexpr int T = 4; std::vector<std::thread> th;
  for (int i = 0; i < T; i++) th.emplace_back([&, i] { for (int k = 0; k < 30; k++) { void* p = t.allocate(8 * i); if (p) t.deallocate(p, 8 * i); } done++; });
  auto t0 = std::chrono::steady_clock::now(); while (done < T) { std::this_thread::sleep_for(std::chrono::microseconds(200)); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(15)) fail("calls through a threaded allocator do not return: the lock is never released"); }
  for (auto& x : th) x.join(); CK("A11", bad == 0, "two threads were inside the wrapped allocator at the same time (%d times)", (int)bad); }
TEST("threaded, several threads", if (active("A11")) run())
}
