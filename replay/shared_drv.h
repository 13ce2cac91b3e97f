#pragma once
#include "drv.h"
#include "sys_drv.h"
#include "ktl/allocators/shared_fwd.h"
#include "ktl/allocators/shared.h"
namespace shd { using namespace sysd;
static std::set<const void*> alive; static int born = 0, died = 0;
// the shared allocator: it knows whether it lives
struct Core { int id; std::set<char*>* mine;
  explicit Core(int i = 0) noexcept : id(i) { alive.insert(this); born++; } Core(const Core& o) noexcept : id(o.id) { alive.insert(this); born++; } Core(Core&& o) noexcept : id(o.id) { alive.insert(this); born++; }
  ~Core() { if (!alive.erase(this)) fail("an allocator is destroyed twice"); died++; } void ok() const { if (!alive.count(this)) fail("a destroyed allocator was asked"); }
  bool operator==(const Core& o) const noexcept { ok(); o.ok(); return id == o.id; } bool operator!=(const Core& o) const noexcept { ok(); o.ok(); return id != o.id; }
  void* allocate(size_t n) noexcept { ok(); return rec_alloc(id, n); } void deallocate(void* p, size_t n) noexcept { ok(); rec_free(id, p, n); } bool owns(void* p) const noexcept { ok(); return rec_owns(id, p); } size_t max_size() const noexcept { ok(); return 777; }
  template<class T, class... A> void construct(T* p, A&&... a) noexcept { ok(); g_ev.push_back({'c', id, p, sizeof...(A)}); ::new (p) T(std::forward<A>(a)...); } template<class T> void destroy(T* p) noexcept { ok(); g_ev.push_back({'x', id, p, 0}); p->~T(); } };
template<template<class> class At> static void history() {
  typedef ktl::shared<Core, At> S; rec_reset(); live_reset(); alive.clear(); born = died = 0; sys.clear(); track = true; oom = 0; int next = 1; std::vector<std::unique_ptr<S>> h; std::vector<int> m; // m[i]: what handle i refers to, 0 nothing
  struct Live { char* p; u64 n; int who; }; std::vector<Live> live; int len = 4 + below(50);
  auto create = [&] { oom = chance(12); bool f = oom; born = 0; std::unique_ptr<S> s(new S(Core(next))); step("handle %zu: new %d%s", h.size(), next, f ? " (out of memory)" : ""); oom = 0; m.push_back(f ? 0 : next++); h.push_back(std::move(s)); };
  auto check = [&] { std::set<int> want; for (int x : m) if (x) want.insert(x); std::multiset<int> have; for (auto* c : alive) have.insert(((Core*)c)->id); for (int x : want) CK("A10", have.count(x) == 1, "allocator %d, to which handles refer, exists %zu times", x, have.count(x)); for (int x : have) CK("A10", want.count(x), "allocator %d, to which no handle refers, still exists", x); CK("A10", sys.size() == want.size(), "%zu blocks of system memory are held for %zu allocators", sys.size(), want.size());
    for (size_t i = 0; i < h.size(); i++) if (m[i]) CK("A10 A12", h[i]->get_allocator().id == m[i], "handle %zu refers to allocator %d instead of %d", i, h[i]->get_allocator().id, m[i]);
    for (size_t k = 0; k < live.size();) { if (!want.count(live[k].who)) { rec_free(live[k].who, live[k].p, live[k].n); live.erase(live.begin() + k); } else k++; } };
  create();
  for (int i = 0; i < len; i++) {
    u64 k = below(20); size_t a = h.empty() ? 0 : below(h.size()), b = h.empty() ? 0 : below(h.size());
    if (h.empty() || k == 0) create();
    else if (k < 4) { step("handle %zu: copy of %zu", h.size(), a); std::unique_ptr<S> s(new S(*h[a])); h.push_back(std::move(s)); m.push_back(m[a]); }
    else if (k < 6) { step("handle %zu: moved from %zu", h.size(), a); std::unique_ptr<S> s(new S(std::move(*h[a]))); h.push_back(std::move(s)); m.push_back(m[a]); m[a] = 0; }
    else if (k < 9) { step("%zu = %zu", a, b); *h[a] = *h[b]; m[a] = m[b]; }
    else if (k < 11) { step("%zu = move(%zu)", a, b); *h[a] = std::move(*h[b]); int x = m[b]; if (a != b) { m[b] = 0; m[a] = x; } }
    else if (k < 14) { step("drop %zu", a); h.erase(h.begin() + a); m.erase(m.begin() + a); }
    else if (k < 17) { if (chance(25)) g_failnext[m[a]] = 1; g_ev.clear(); u64 n = below(64); if (m[a]) { bool f = g_failnext[m[a]] > 0; char* p = (char*)h[a]->allocate(n); step("handle %zu allocate(%llu) = %p", a, (unsigned long long)n, p); CK("A03 A10 A12", (p == nullptr) == f && g_ev.size() == 1 && g_ev[0].k == 'a' && g_ev[0].n == n && g_ev[0].who == m[a] && g_ev[0].p == p, "allocate does not give the answer of the shared allocator"); if (p) { paint(p, n, 1); live.push_back({p, n, m[a]}); } } else { char* p = (char*)h[a]->allocate(n); CK("A03 A10", p == nullptr && g_ev.empty(), "a handle that refers to nothing served a request"); } g_failnext.clear(); }
    else if (k == 17) { CK("A13", *h[a] == *h[a] && !(*h[a] != *h[a]), "a handle differs from itself"); bool e = *h[a] == *h[b]; CK("A13", e == (*h[b] == *h[a]) && (*h[a] != *h[b]) == !e, "equality of handles is not coherent"); if (m[a] && m[b]) CK("A13", e == (m[a] == m[b]), "handles of allocators %d and %d compare %d", m[a], m[b], (int)e); else if (m[a] || m[b]) CK("A13", !e, "a handle equals one that refers to nothing"); }
    else if (!live.empty() && k == 18) { size_t j = below(live.size()); for (size_t x = 0; x < h.size(); x++) if (m[x] == live[j].who) { step("handle %zu deallocate(%p)", x, live[j].p); g_ev.clear(); h[x]->deallocate(live[j].p, live[j].n); CK("A10 A12", calls('d') == 1 && g_ev.size() == 1, "deallocate does not reach the shared allocator once"); live.erase(live.begin() + j); break; } }
    else if (m[a]) { char* p = live.empty() ? (char*)rnd() : live[0].p; CK("A04 A12", h[a]->owns(p) == rec_owns(m[a], p), "owns differs from the shared allocator's"); CK("A12", h[a]->max_size() == 777, "max_size differs"); for (auto& l : live) if (l.who == m[a] && l.n >= sizeof(Counted)) { i64 al = Counted::alive, md = Counted::made; g_ev.clear(); h[a]->construct((Counted*)l.p, (u64)3); CK("A12", calls('c') == 1 && Counted::made == md + 1 && ((Counted*)l.p)->v == 3, "construct does not reach the shared allocator once"); g_ev.clear(); h[a]->destroy((Counted*)l.p); CK("A12", calls('x') == 1 && Counted::alive == al, "destroy does not reach the shared allocator once"); break; } }
    check();
  }
  while (!h.empty()) { size_t a = below(h.size()); step("drop %zu", a); h.erase(h.begin() + a); m.erase(m.begin() + a); check(); }
  CK("A10", alive.empty() && sys.empty(), "after the last handle something is still there");
}
template<class T> using Atomic = std::atomic<T>;
TEST("shared", history<ktl::notomic>()) TEST("shared, atomic", history<Atomic>())
}
// several threads copy and drop their own handles at the same time
namespace sht {
struct Core { std::atomic<int> live{0x5a5a}; u64 data[4] = {1, 2, 3, 4}; static std::atomic<int> born, died; Core() noexcept { born++; } Core(const Core&) noexcept { born++; } ~Core() { if (live.exchange(0) != 0x5a5a) { printf("FAIL: an allocator is destroyed twice\n"); fflush(stdout); _exit(3); } for (auto& d : data) d = 0; died++; }
  bool operator==(const Core&) const noexcept { return true; } bool operator!=(const Core&) const noexcept { return false; } void* allocate(size_t n) noexcept { if (live != 0x5a5a || data[3] != 4) { printf("FAIL: a destroyed allocator was asked\n"); fflush(stdout); _exit(3); } return nullptr; } void deallocate(void*, size_t) noexcept {} };
std::atomic<int> Core::born{0}, Core::died{0};
template<class T> using Atomic = std::atomic<T>;
static void threads() {
  typedef ktl::shared<Core, Atomic> S; shd::track = false; Core::born = Core::died = 0; 
  { constexpr int T = 4; std::vector<std::unique_ptr<S>> own(T); { S first; for (int t = 0; t < T; t++) own[t].reset(new S(first)); } int base = Core::born; std::vector<std::thread> th; std::atomic<int> go{0}; u64 sd = rnd();
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { u64 s = sd + t; std::unique_ptr<S> x = std::move(own[t]); go++; while (go < T) {} for (int i = 0; i < 200; i++) { s = s * 6364136223846793005ull + 1; S y(*x); switch ((s >> 33) % 6) { case 0: { S z(std::move(y)); z.allocate(1); break; } case 1: { S z(y); *x = std::move(z); break; } case 2: *x = y; break; case 3: { S z(y), w(z); z = w; break; } case 4: x.reset(new S(std::move(y))); break; default: y.allocate(1); } x->allocate(1); } x.reset(); });
    for (auto& t : th) t.join(); CK("A10", Core::died == Core::born && base == Core::born, "after the last handle was dropped %d of %d allocators are destroyed", (int)Core::died, (int)Core::born); }
  shd::track = true;
}
TEST("shared, threads", for (int i = 0; i < 10; i++) threads())
}
