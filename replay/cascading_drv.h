#pragma once
#include "drv.h"
#include "sys_drv.h"
#include "ktl/allocators/cascading.h"
namespace cad { using namespace sysd;
struct Inst; static std::map<int, Inst*> insts; static std::vector<int> created, destroyed; static int next_id = 1; static u64 cap = 4, maxsz = 256; static bool failnew = false, teardown = false;
struct InstState { std::map<char*, u64> blocks; u64 quota; };
static std::map<int, InstState> st;
struct Inst {
  int id; Inst() noexcept : id(next_id++) { insts[id] = this; created.push_back(id); st[id].quota = failnew ? 0 : cap; }
  Inst(const Inst&) = delete;
  ~Inst() { if (!insts.count(id) || insts[id] != this) fail("an instance is destroyed twice"); if (!teardown && !st[id].blocks.empty()) fail("instance %d is destroyed while %zu of its blocks are in use", id, st[id].blocks.size()); insts.erase(id); destroyed.push_back(id); }
  bool operator==(const Inst& r) const noexcept { return this == &r; } bool operator!=(const Inst& r) const noexcept { return this != &r; }
  void alive() const { auto it = insts.find(id); if (it == insts.end() || it->second != this) fail("an instance that does not exist was asked"); }
  bool can(u64 n) { return st[id].blocks.size() < st[id].quota && n <= maxsz; }
  void* allocate(size_t n) noexcept { alive(); g_ev.push_back({'a', id, nullptr, n}); if (!can(n)) return nullptr; char* p = (char*)malloc(n ? n : 1); st[id].blocks[p] = n; g_ev.back().p = p; return p; }
  void deallocate(void* p, size_t n) noexcept { alive(); g_ev.push_back({'d', id, p, n}); auto it = st[id].blocks.find((char*)p); if (it == st[id].blocks.end()) fail("instance %d is given back a block it does not hold", id); if (it->second != n) fail("a block of %llu bytes is given back with %llu", (unsigned long long)it->second, (unsigned long long)n); st[id].blocks.erase(it); free(p); }
  bool owns(void* p) const noexcept { alive(); auto& b = st[id].blocks; auto it = b.upper_bound((char*)p); if (it == b.begin()) return false; --it; return (char*)p < it->first + std::max<u64>(it->second, 1); }
};
struct InstM : Inst { size_t max_size() const noexcept { alive(); return maxsz; }
  template<class T, class... A> void construct(T* p, A&&... a) noexcept { alive(); g_ev.push_back({'c', id, p, sizeof...(A)}); ::new (p) T(std::forward<A>(a)...); } template<class T> void destroy(T* p) noexcept { alive(); g_ev.push_back({'x', id, p, 0}); p->~T(); } };
struct Live { char* p; u64 n; unsigned char b; int who; };
template<class I> static void history() {
  typedef ktl::cascading<I> C; insts.clear(); created.clear(); destroyed.clear(); st.clear(); next_id = 1; cap = 1 + below(4); maxsz = chance(50) ? 256 : 64; failnew = false; teardown = false; oom = 0; sys.clear(); constexpr bool hasmax = std::is_same_v<I, InstM>;
  std::unique_ptr<C> c(new C); std::vector<Live> live; int cur = 0; std::set<int> mine; unsigned char tag = 1; int len = 5 + below(60);
  auto intact = [&] { for (auto& l : live) CK("A07", painted(l.p, l.n, l.b), "the contents of a live block were disturbed"); };
  auto same = [&](const char* when) { std::set<int> now; for (auto& i : insts) now.insert(i.first); CK("A07", now == mine, "%s there are %zu instances instead of %zu", when, now.size(), mine.size()); mine = now; };
  auto alloc = [&](u64 n) {
    failnew = chance(8); oom = chance(8) ? 1 : 0; bool noma = oom; g_ev.clear(); created.clear(); destroyed.clear(); int before = cur; bool curcan = cur && insts.count(cur) && insts[cur]->can(n); bool big = hasmax && n > maxsz;
    char* p = (char*)c->allocate(n); step("allocate(%llu) = %p%s%s", (unsigned long long)n, p, noma ? " (no system memory)" : "", failnew ? " (a new instance cannot serve)" : ""); bool usedoom = noma && oom == 0; oom = 0;
    if (curcan) { CK("A03 A07", p != nullptr, "the current instance can serve the request but it was refused"); CK("A07", created.empty(), "an instance was created although the current one can serve"); if (p) CK("A07", st[cur].blocks.count(p), "the request was not served by the current instance"); }
    else { bool newcan = !failnew && n <= maxsz && cap > 0; if (big) { CK("A03 A07", p == nullptr, "a request above max_size was served"); }
      else if (newcan && !usedoom) { CK("A03 A07", p != nullptr, "a new instance could serve the request but it was refused"); CK("A07", created.size() == 1, "%zu instances were created to serve a request", created.size()); }
      else CK("A03 A07", p == nullptr, "a request nothing can serve was served"); }
    if (p) { int w = 0; for (auto& s : st) if (insts.count(s.first) && s.second.blocks.count(p)) w = s.first; if (!w) fail("the block returned was supplied by no instance"); CK("A03 A07", st[w].blocks[p] == n, "an instance was asked for the wrong size"); cur = w; paint(p, n, tag); live.push_back({p, n, tag, w}); tag = tag * 5 + 3; }
    for (int i : created) if (insts.count(i)) mine.insert(i); for (int i : destroyed) { CK("A07", std::count(created.begin(), created.end(), i), "allocating destroyed instance %d", i); mine.erase(i); }
    if (!p) { CK("A03 A07", before == 0 || insts.count(before), "a refused request destroyed the current instance"); if (before == 0 && !insts.empty() ) cur = insts.rbegin()->first; if (before) CK("A03 A07", mine.size() == insts.size(), "a refused request changed the instances"); }
    failnew = false; };
  auto release = [&](size_t i) {
    Live l = live[i]; live.erase(live.begin() + i); step("deallocate(%p, %llu) of instance %d (current %d)", l.p, (unsigned long long)l.n, l.who, cur); CK("A07", painted(l.p, l.n, l.b), "contents disturbed"); g_ev.clear(); destroyed.clear(); u64 left = st[l.who].blocks.size() - 1; c->deallocate(l.p, l.n);
    CK("A07", calls('d') == 1 && call('d')->who == l.who, "the block was not handed back to its instance exactly once");
    bool gone = l.who != cur && left == 0; CK("A07", destroyed.size() == (gone ? 1u : 0u), gone ? "the empty instance %d was not destroyed" : "an instance was destroyed on returning a block of instance %d", l.who); if (gone && !destroyed.empty()) CK("A07", destroyed[0] == l.who, "instance %d was destroyed instead of %d", destroyed[0], l.who); for (int d : destroyed) mine.erase(d); };
  auto owning = [&] { for (int k = 0; k < 4; k++) { char* p = k == 0 ? (char*)rnd() : k == 1 || live.empty() ? nullptr : live[below(live.size())].p + (chance(70) ? 0 : (i64)below(3) - 1); bool o = false; for (auto& i : insts) o |= i.second->owns(p); CK("A04 A07", c->owns(p) == o, "owns(%p) is %d but its instances say %d", p, (int)!o, (int)o); } same("after asking owns"); };
  auto cons = [&] { if constexpr (hasmax) { CK("A12", c->max_size() == maxsz, "max_size"); if (!live.empty()) { Live& l = live[below(live.size())]; if (l.n >= sizeof(Counted)) { i64 a = Counted::alive, m = Counted::made; g_ev.clear(); c->construct((Counted*)l.p, (u64)5); CK("A07 A12", Counted::made == m + 1 && Counted::alive == a + 1 && calls('c') == 1 && call('c')->who == l.who && ((Counted*)l.p)->v == 5, "construct does not reach the owning instance exactly once"); g_ev.clear(); c->destroy((Counted*)l.p); CK("A07 A12", Counted::alive == a && calls('x') == 1 && call('x')->who == l.who, "destroy does not reach the owning instance exactly once"); Counted::alive = a; paint(l.p, l.n, l.b); } } } };
  auto moved = [&] { destroyed.clear(); created.clear(); if (chance(50)) { step("move construct"); std::unique_ptr<C> d(new C(std::move(*c))); c.reset(); c = std::move(d); CK("A07", destroyed.empty() && created.empty(), "moving created or destroyed instances"); }
    else { step("move assign"); std::unique_ptr<C> d(new C); std::set<int> olds; u64 k = below(5); std::vector<char*> ps; for (u64 i = 0; i < k; i++) { char* p = (char*)d->allocate(8); if (p) ps.push_back(p); } for (auto& i : insts) if (!mine.count(i.first)) olds.insert(i.first); for (char* p : ps) d->deallocate(p, 8); olds.clear(); for (auto& i : insts) if (!mine.count(i.first)) olds.insert(i.first); destroyed.clear(); *d = std::move(*c); std::set<int> dd(destroyed.begin(), destroyed.end()); CK("A07", dd == olds && destroyed.size() == olds.size(), "assigning over a cascading allocator destroyed %zu instances instead of %zu", destroyed.size(), olds.size()); destroyed.clear(); c.reset(); CK("A07", destroyed.empty(), "the source of a move kept instances"); c = std::move(d); }
    same("after a move"); };
  for (int i = 0; i < len; i++) { u64 k = below(24); if (k < 11) alloc(chance(85) ? below(64) : size_near({maxsz, 64})); else if (k < 20) { if (!live.empty()) release(chance(30) ? live.size() - 1 : below(live.size())); } else if (k == 20) owning(); else if (k == 21) cons(); else if (k == 22) moved(); else { CK("A13", *c == *c && !(*c != *c), "an allocator differs from itself"); C e; CK("A13", (*c == e) == !(*c != e) && (*c == e) == (e == *c), "equality is not coherent"); if (!live.empty()) CK("A13", !(*c == e), "allocators with different instances are equal"); } same("afterwards"); intact(); }
  if (chance(60)) while (!live.empty()) release(below(live.size()));
  step("destroy"); teardown = true; destroyed.clear(); size_t k = insts.size(); c.reset(); CK("A07", destroyed.size() == k && insts.empty(), "destroying the allocator destroyed %zu of %zu instances", destroyed.size(), k); CK("A07 U01", sys.empty(), "%zu blocks of system memory were not given back", sys.size()); for (auto& l : live) free(l.p);
}
TEST("cascading", history<Inst>()) TEST("cascading with max_size", history<InstM>())
}
