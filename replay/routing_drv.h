#pragma once
#include "drv.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/fallback_fwd.h"
#include "ktl/allocators/segragator_fwd.h"
namespace rtd {
// part K of a composite; Caps 1: construct/destroy
template<int K, int Caps> struct Part {
  int id = K; Part() noexcept {} explicit Part(int i) noexcept : id(i) {}
  bool operator==(const Part& r) const noexcept { return id == r.id; } bool operator!=(const Part& r) const noexcept { return id != r.id; }
  void* allocate(size_t n) noexcept { return rec_alloc(id, n); } void deallocate(void* p, size_t n) noexcept { rec_free(id, p, n); }
  bool owns(void* p) const noexcept { return rec_owns(id, p); } size_t max_size() const noexcept { return 100 * ((K * 7) % 5) + K; }
  template<class T, class... A, int C = Caps, std::enable_if_t<C == 1, int> = 0> void construct(T* p, A&&... a) noexcept { g_ev.push_back({'c', id, p, sizeof...(A)}); ::new (p) T(std::forward<A>(a)...); }
  template<class T, int C = Caps, std::enable_if_t<C == 1, int> = 0> void destroy(T* p) noexcept { g_ev.push_back({'x', id, p, 0}); p->~T(); }
};
struct Live { char* p; u64 n; unsigned char b; int who; };
// choose(n): the part that has to serve n, given which parts will fail; 0: none.  order: parts asked on the way
template<class X, class Choose> static void history(Choose choose, std::vector<int> parts, std::vector<bool> cons, std::initializer_list<u64> sizes) {
  rec_reset(); live_reset(); X x; std::vector<Live> live; unsigned char tag = 1; int len = 4 + below(40); for (int k : parts) if (chance(40)) g_limit[k] = below(200);
  bool anycons = false; for (bool c : cons) anycons |= c;
  for (int i = 0; i < len; i++) {
    u64 k = below(10);
    if (k < 5) { u64 n = size_near(sizes); for (int q : parts) g_failnext[q] = chance(30); std::vector<int> order; int w = choose(n, order); g_ev.clear(); char* p = (char*)x.allocate(n);
      step("allocate(%llu) = %p", (unsigned long long)n, p);
      CK("A03 A05 A12", (p != nullptr) == (w != 0), w ? "a request part %d can serve was refused" : "a request no part can serve was served", w);
      CK("A05 A12", g_ev.size() == order.size(), "%zu parts were asked instead of %zu", g_ev.size(), order.size());
      for (size_t j = 0; j < order.size() && j < g_ev.size(); j++) CK("A05 A12", g_ev[j].k == 'a' && g_ev[j].who == order[j] && g_ev[j].n == n, "part %d was asked for %llu bytes instead of part %d for %llu", g_ev[j].who, (unsigned long long)g_ev[j].n, order[j], (unsigned long long)n);
      if (p) { if (!g_live.count(p)) fail("the block returned was not supplied by a part"); CK("A05", g_live[p].owner == w, "the block comes from part %d instead of %d", g_live[p].owner, w); CK("A03 A05", g_live[p].n == n, "a part was asked for %llu bytes instead of %llu", (unsigned long long)g_live[p].n, (unsigned long long)n); paint(p, n, tag); live.push_back({p, n, tag, w}); tag = tag * 5 + 3; }
    } else if (k < 8 && !live.empty()) { size_t j = below(live.size()); Live l = live[j]; live.erase(live.begin() + j); step("deallocate(%p, %llu) of part %d", l.p, (unsigned long long)l.n, l.who); CK("A05", painted(l.p, l.n, l.b), "contents disturbed"); g_ev.clear(); x.deallocate(l.p, l.n); CK("A05", calls('d') == 1 && call('d')->p == l.p && g_ev.size() == 1, "the block was not handed back exactly once"); }
    else if (k == 8) { char* p = live.empty() ? (char*)rnd() : live[below(live.size())].p + (chance(50) ? 0 : below(3)); bool o = false; for (int q : parts) o |= rec_owns(q, p); CK("A04", x.owns(p) == o, "owns(%p) is %d but its parts say %d", p, (int)!o, (int)o); if (chance(30)) { size_t m = 0; for (int q : parts) m = std::max<size_t>(m, 100 * ((q * 7) % 5) + q); CK("A12", x.max_size() == m, "max_size is %zu instead of %zu", (size_t)x.max_size(), m); } }
    else if (anycons && !live.empty()) { Live& l = live[below(live.size())]; if (l.n >= sizeof(Counted)) { bool c = cons[std::find(parts.begin(), parts.end(), l.who) - parts.begin()]; i64 a = Counted::alive, m = Counted::made; step("construct in %p of part %d", l.p, l.who); g_ev.clear(); 
      if constexpr (true) { x.construct((Counted*)l.p, (u64)9); CK("A05 A12", Counted::made == m + 1 && Counted::alive == a + 1 && ((Counted*)l.p)->v == 9, "the object was constructed %lld times", (long long)(Counted::made - m)); CK("A05 A12", calls('c') == (unsigned)c && (!c || (call('c')->who == l.who && call('c')->p == l.p)), "the object was not constructed by the part that owns its memory"); g_ev.clear(); x.destroy((Counted*)l.p); CK("A05 A12", Counted::alive == a, "the object was not destroyed once"); CK("A05 A12", calls('x') == (unsigned)c && (!c || (call('x')->who == l.who && call('x')->p == l.p)), "the object was not destroyed by the part that owns its memory"); }
      Counted::alive = a; paint(l.p, l.n, l.b); } }
    for (auto& l : live) CK("A05", painted(l.p, l.n, l.b), "contents disturbed");
  }
  while (!live.empty()) { Live l = live.back(); live.pop_back(); x.deallocate(l.p, l.n); }
  X y(x); CK("A13", x == y && !(x != y) && y == x, "a copy is not equal");
}
static int fb_choose(int np, u64 n, std::vector<int>& order) { for (int k = 1; k <= np; k++) { order.push_back(k); if (!rec_will_fail(k, n)) return k; } return 0; }
static int sg_choose(const std::vector<u64>& th, u64 n, std::vector<int>& order) { int k = 1; for (u64 t : th) { if (n <= t) break; k++; } order.push_back(k); return rec_will_fail(k, n) ? 0 : k; }
template<class X> static void fb(int np, std::vector<bool> cons) { std::vector<int> ps; for (int i = 1; i <= np; i++) ps.push_back(i); history<X>([=](u64 n, std::vector<int>& o) { return fb_choose(np, n, o); }, ps, cons, {64, 200, 16}); }
template<class X> static void sg(std::vector<u64> th, std::vector<bool> cons) { std::vector<int> ps; for (size_t i = 1; i <= th.size() + 1; i++) ps.push_back(i); std::vector<u64> t2 = th; while (t2.size() < 4) t2.push_back(t2.back() * 3); history<X>([=](u64 n, std::vector<int>& o) { return sg_choose(th, n, o); }, ps, cons, {t2[0], t2[1], t2[2], t2[3], th.back()}); }
template<int K> using P = Part<K, 1>; template<int K> using Q = Part<K, 0>; using namespace ktl;
TEST("fallback", fb<fallback<P<1>, P<2>>>(2, {true, true})) TEST("fallback, first constructs", fb<fallback<P<1>, Q<2>>>(2, {true, false})) TEST("fallback, second constructs", fb<fallback<Q<1>, P<2>>>(2, {false, true}))
TEST("segragator 16", sg<segragator<16, P<1>, P<2>>>({16}, {true, true})) TEST("segragator 0", sg<segragator<0, P<1>, Q<2>>>({0}, {true, false})) TEST("segragator 4096", sg<segragator<4096, Q<1>, P<2>>>({4096}, {false, true}))
#define FBT(N, ...) TEST("fallback_builder_min " #N, fb<fallback_builder_min<__VA_ARGS__>>(N, std::vector<bool>(N, true))) TEST("fallback_builder_max " #N, fb<fallback_builder_max<__VA_ARGS__>>(N, std::vector<bool>(N, true)))
#define SGT(N, ...) TEST("segragator_builder_min " #N, sg<segragator_builder_min<__VA_ARGS__>>(ths(N), std::vector<bool>(N, true))) TEST("segragator_builder_max " #N, sg<segragator_builder_max<__VA_ARGS__>>(ths(N), std::vector<bool>(N, true)))
static std::vector<u64> ths(int n) { std::vector<u64> v; for (int i = 1; i < n; i++) v.push_back(16 * i); return v; }
template<size_t K> using H = threshold<16 * K>;
FBT(2, P<1>, P<2>) FBT(3, P<1>, P<2>, P<3>) FBT(4, P<1>, P<2>, P<3>, P<4>) FBT(5, P<1>, P<2>, P<3>, P<4>, P<5>) FBT(7, P<1>, P<2>, P<3>, P<4>, P<5>, P<6>, P<7>) FBT(9, P<1>, P<2>, P<3>, P<4>, P<5>, P<6>, P<7>, P<8>, P<9>)
SGT(2, P<1>, H<1>, P<2>) SGT(3, P<1>, H<1>, P<2>, H<2>, P<3>) SGT(4, P<1>, H<1>, P<2>, H<2>, P<3>, H<3>, P<4>) SGT(6, P<1>, H<1>, P<2>, H<2>, P<3>, H<3>, P<4>, H<4>, P<5>, H<5>, P<6>) SGT(8, P<1>, H<1>, P<2>, H<2>, P<3>, H<3>, P<4>, H<4>, P<5>, H<5>, P<6>, H<6>, P<7>, H<7>, P<8>)
TEST("construction and equality", { typedef Part<3, 0> A; typedef Part<4, 0> B; int i = 10 + below(3), j = 20 + below(3), k = 10 + below(3), l = 20 + below(3); step("parts %d %d and %d %d", i, j, k, l);
  bool e = i == k && j == l; fallback<A, B> x(A{i}, B{j}), y(std::tuple<int>{k}, std::tuple<int>{l}); segragator<16, A, B> u(A{i}, B{j}), v(std::tuple<int>{k}, std::tuple<int>{l});
  CK("A13", (x == y) == e && (x != y) == !e && (y == x) == e && (y != x) == !e && x == x && !(x != x), "equality of fallbacks is not that of their parts"); CK("A13", (u == v) == e && (u != v) == !e && (v == u) == e && u == u, "equality of segragators is not that of their parts");
  rec_reset(); live_reset(); g_failnext[i] = 1; void* p = x.allocate(8); CK("A05", g_ev.size() == 2 && g_ev[0].who == i && g_ev[1].who == j, "the parts given to a fallback are not the ones asked"); if (p) x.deallocate(p, 8); g_ev.clear(); p = v.allocate(20); CK("A05", g_ev.size() == 1 && g_ev[0].who == l, "the parts given to a segragator are not the ones asked"); if (p) v.deallocate(p, 20); })
}
