// A05 (routing), parts of A03/A04/A12/A13: fallback, segragator and the builders
#include "opaque.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/segragator.h"

template<unsigned C> using P1 = OA<1, C | C_FIXED>;
template<unsigned C> using F2 = OA<2, C | C_FIXED>;

// the element lands at p exactly once; if its owner can construct, through the owner and nobody else
static void one_construct(u64 owner, bool via, u64 p, u64 v) {
  if (via) { vc_reach("constructed by the part"); vc_check(log_n() == 2 && log_is(0, EV_CONS, owner, p, 1) && log_is(1, EV_TCTOR, 0, p, v), "the owning part constructs the object exactly once"); }
  else { vc_reach("constructed in place"); vc_check(log_n() == 1 && log_is(0, EV_TCTOR, 0, p, v), "the object is constructed exactly once"); }
}
static void one_destroy(u64 owner, bool via, u64 p) {
  if (via) { vc_reach("destroyed by the part"); vc_check(log_n() == 2 && log_is(0, EV_DEST, owner, p, 0) && log_is(1, EV_TDTOR, 0, p, 0), "the owning part destroys the object exactly once"); }
  else { vc_reach("destroyed in place"); vc_check(log_n() == 1 && log_is(0, EV_TDTOR, 0, p, 0), "the object is destroyed exactly once"); }
}
template<class X> static void construct_destroy(X& x, unsigned cp, unsigned cf) {
  u64 o = vc_fork(vc_any("owner_is_first") != 0) ? 1 : 2;
  u64 n = vc_any("n"); vc_assume(n >= 8); u64 p = vc_someblock("p", o, n), v = vc_any("v");
  bool via = ((o == 1 ? cp : cf) & C_CONS) != 0;
  log_reset(); x.construct((Obj*)p, v); one_construct(o, via, p, v);
  vc_check(vc_hload(p) == v, "the object holds the given value");
  log_reset(); x.destroy((Obj*)p); one_destroy(o, via, p);
}
template<class X> static void owns_max(X& x) {
  u64 p = vc_any("p"); vc_term(T_PTR, p); log_reset();
  bool a = oa_owns(1, p), b = oa_owns(2, p), r = x.owns((void*)p);
  if (r) vc_reach("owned"); else vc_reach("not owned");
  vc_check(r == (a || b), "A04: owns is true exactly when a part owns the address"); vc_check(log_n() == 0, "A04: asking changes nothing");
  u64 m = x.max_size(), ma = vc_fun1("max_size", 1), mb = vc_fun1("max_size", 2);
  vc_check(m == ite(ma > mb, ma, mb), "A12: max_size is the larger of the parts'");
}
template<class X> static void seq_alloc(X& x) {
  u64 n = vc_any("n"); log_reset();
  u64 p = adr(x.allocate(n));
  vc_check(log_n() >= 1 && log_is(0, EV_ALLOC, 1, n, 0), "the first part is asked for exactly n bytes");
  if (log_r(0) != 0) { vc_reach("first part serves"); vc_check(log_n() == 1, "no other part is asked when the first can serve"); vc_check(p == log_r(0), "the first part's block is returned"); }
  else { vc_reach("second part asked");
    vc_check(log_n() == 2 && log_is(1, EV_ALLOC, 2, n, 0), "the second part is asked for exactly n bytes"); vc_check(p == log_r(1), "A03,A05: the second part's answer is returned"); }
}
template<unsigned CP, unsigned CF> using FB = ktl::fallback<P1<CP>, F2<CF>>;
H(fb_alloc) { vc_world(); FB<C_OWNS, 0> x; seq_alloc(x); vc_check(x.m_Primary.id == 1 && x.m_Fallback.id == 2, "the parts stay in place"); }
H(fb_dealloc) {
  vc_world(); FB<C_OWNS, 0> x;
  u64 n = vc_any("n"), o = vc_fork(vc_any("owner_is_first") != 0) ? 1 : 2; u64 p = vc_someblock("p", o, n);
  log_reset(); x.deallocate((void*)p, n);
  vc_reach("returned");
  vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, o, p, n), "exactly the supplying part gets the block back, with its size");
  vc_check(x.m_Primary.id == 1 && x.m_Fallback.id == 2, "the parts stay in place");
}
H(fb_cons_pf) { vc_world(); FB<C_OWNS | C_CONS, C_CONS> x; construct_destroy(x, C_CONS, C_CONS); }
H(fb_cons_p) { vc_world(); FB<C_OWNS | C_CONS, 0> x; construct_destroy(x, C_CONS, 0); }
H(fb_cons_f) { vc_world(); FB<C_OWNS, C_CONS> x; construct_destroy(x, 0, C_CONS); }
H(fb_owns) { vc_world(); FB<C_OWNS | C_MAX, C_OWNS | C_MAX> x; owns_max(x); }

template<size_t T, unsigned CP, unsigned CF> using SG = ktl::segragator<T, P1<CP>, F2<CF>>;
template<size_t T> static void sg_alloc() {
  vc_world(); SG<T, 0, 0> x; u64 n = vc_any("n"), o = ite(n <= T, 1, 2); log_reset();
  u64 p = adr(x.allocate(n));
  if (n <= T) vc_reach("small"); else if (T != ~(size_t)0) vc_reach("large");
  vc_check(log_n() == 1 && log_is(0, EV_ALLOC, o, n, 0), "exactly the part whose range holds n is asked, for n bytes"); vc_check(p == log_r(0), "A03,A05: its answer is returned");
  vc_check(x.m_Primary.id == 1 && x.m_Fallback.id == 2, "the parts stay in place");
}
template<size_t T> static void sg_dealloc() {
  vc_world(); SG<T, 0, 0> x; u64 n = vc_any("n"), o = ite(n <= T, 1, 2); u64 p = vc_someblock("p", o, n);
  log_reset(); x.deallocate((void*)p, n);
  vc_reach("returned");
  vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, o, p, n), "exactly the supplying part gets the block back, with its size");
}
H(sg_alloc_16) { sg_alloc<16>(); } H(sg_alloc_0) { sg_alloc<0>(); } H(sg_alloc_4096) { sg_alloc<4096>(); } H(sg_alloc_max) { sg_alloc<~(size_t)0>(); }
H(sg_dealloc_16) { sg_dealloc<16>(); } H(sg_dealloc_0) { sg_dealloc<0>(); } H(sg_dealloc_4096) { sg_dealloc<4096>(); }
H(sg_cons_pf) { vc_world(); SG<16, C_OWNS | C_CONS, C_CONS> x; construct_destroy(x, C_CONS, C_CONS); }
H(sg_cons_p) { vc_world(); SG<16, C_OWNS | C_CONS, 0> x; construct_destroy(x, C_CONS, 0); }
H(sg_cons_f) { vc_world(); SG<16, C_OWNS, C_CONS> x; construct_destroy(x, 0, C_CONS); }
H(sg_owns) { vc_world(); SG<16, C_OWNS | C_MAX, C_OWNS | C_MAX> x; owns_max(x); }

// constructors hand each part what is meant for it
H(ctor_args) {
  vc_world(); typedef OA<3, C_OWNS> A; typedef OA<4, 0> B;
  u64 i = vc_any("i"), j = vc_any("j");
  ktl::fallback<A, B> x(A{i}, B{j}); vc_check(x.m_Primary.id == i && x.m_Fallback.id == j, "A05: fallback is built from the given parts");
  ktl::segragator<16, A, B> y(A{i}, B{j}); vc_check(y.m_Primary.id == i && y.m_Fallback.id == j, "A05: segragator is built from the given parts");
  ktl::fallback<A, B> x2(std::tuple<u64>{i}, std::tuple<u64>{j}); vc_check(x2.m_Primary.id == i && x2.m_Fallback.id == j, "A05: fallback is built from the given tuples");
  ktl::segragator<16, A, B> y2(std::tuple<u64>{i}, std::tuple<u64>{j}); vc_check(y2.m_Primary.id == i && y2.m_Fallback.id == j, "A05: segragator is built from the given tuples");
  ktl::fallback<A, B> x3{A{i}}; vc_check(x3.m_Primary.id == i, "A05: fallback is built from the given part");
  ktl::segragator<16, A, B> y3{A{i}}; vc_check(y3.m_Primary.id == i, "A05: segragator is built from the given part");
  ktl::fallback<A, B> x4(x); vc_check(x4.m_Primary.id == i && x4.m_Fallback.id == j, "A05: a copy has the same parts");
  ktl::segragator<16, A, B> y4(std::move(y)); vc_check(y4.m_Primary.id == i && y4.m_Fallback.id == j, "A05: a moved segragator has the same parts");
  x3 = x; y3 = y2; vc_check(x3.m_Primary.id == i && x3.m_Fallback.id == j && y3.m_Primary.id == i && y3.m_Fallback.id == j, "A05: an assigned allocator has the same parts");
  vc_check(x == x4 && !(x != x4) && y2 == y3 && !(y2 != y3), "A13: copies are equal");
  vc_reach("constructed");
}
template<class X> static void coherent(X& x, X& y, bool e) {
  vc_check((x == y) == e, "A13: composites are equal exactly when all parts are"); vc_check((x != y) == !e, "A13: inequality is the negation of equality");
  vc_check((y == x) == e && (y != x) == !e, "A13: equality is symmetric"); vc_check(x == x && !(x != x), "A13: equality is reflexive");
  if (e) vc_reach("equal"); else vc_reach("different");
}
H(route_eq) {
  vc_world(); typedef OA<3, C_OWNS> A; typedef OA<4, 0> B;
  u64 i = vc_any("i"), j = vc_any("j"), k = vc_any("k"), l = vc_any("l"); bool e = (i == k) & (j == l);
  { ktl::fallback<A, B> x(A{i}, B{j}), y(A{k}, B{l}); coherent(x, y, e); }
  { ktl::segragator<16, A, B> x(A{i}, B{j}), y(A{k}, B{l}); coherent(x, y, e); }
}
// ---- the builders: K parts, asked in order / chosen by range
template<int K> using PT = OA<K, C_OWNS | C_CONS | C_FIXED>;
template<class X, int NP> static void build_alloc() {
  vc_world(); X x; u64 n = vc_any("n"); log_reset();
  u64 p = adr(x.allocate(n));
  u64 k = log_n();
  vc_check(k >= 1 && k <= NP, "some part is asked");
  for (u64 i = 0; i < NP; i++) {
    vc_check(imp(i < k, log_is(i, EV_ALLOC, i + 1, n, 0)), "the parts are asked in order for exactly n bytes");
    vc_check(imp(i + 1 < k, log_r(i) == 0), "a later part is asked only when the earlier ones cannot serve");
    vc_check(imp(i + 1 == k, (log_r(i) == p) & ((p != 0) | (k == NP))), "A03,A05: the first answer that is not null is returned");
  }
  if (p) vc_reach("served"); else vc_reach("refused");
}
template<class X, int NP> static void build_dealloc() {
  vc_world(); X x; u64 n = vc_any("n"), o = vc_any("owner"); vc_assume(o >= 1); vc_assume(o <= NP);
  u64 p = vc_someblock("p", o, n); log_reset();
  x.deallocate((void*)p, n);
  vc_reach("returned");
  vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, o, p, n), "exactly the supplying part gets the block back, with its size");
}
template<class X, int NP> static void build_cons() {
  vc_world(); X x; u64 n = vc_any("n"), o = vc_any("owner"), v = vc_any("v"); vc_assume(n >= 8); vc_assume(o >= 1); vc_assume(o <= NP);
  u64 p = vc_someblock("p", o, n);
  log_reset(); x.construct((Obj*)p, v); one_construct(o, true, p, v);
  log_reset(); x.destroy((Obj*)p); one_destroy(o, true, p);
}
template<class X, int NP> static void build_owns() {
  vc_world(); X x; u64 p = vc_any("p"); bool a = false;
  for (u64 i = 1; i <= NP; i++) a = a | oa_owns(i, p);
  vc_check(x.owns((void*)p) == a, "A04: owns is true exactly when a part owns the address"); vc_reach("asked");
}
#define FBB(NP, ...) \
  H(fbmin_alloc_##NP) { build_alloc<ktl::fallback_builder_min<__VA_ARGS__>, NP>(); } H(fbmin_dealloc_##NP) { build_dealloc<ktl::fallback_builder_min<__VA_ARGS__>, NP>(); } \
  H(fbmin_cons_##NP) { build_cons<ktl::fallback_builder_min<__VA_ARGS__>, NP>(); } H(fbmin_owns_##NP) { build_owns<ktl::fallback_builder_min<__VA_ARGS__>, NP>(); } \
  H(fbmax_alloc_##NP) { build_alloc<ktl::fallback_builder_max<__VA_ARGS__>, NP>(); } H(fbmax_dealloc_##NP) { build_dealloc<ktl::fallback_builder_max<__VA_ARGS__>, NP>(); } \
  H(fbmax_cons_##NP) { build_cons<ktl::fallback_builder_max<__VA_ARGS__>, NP>(); } H(fbmax_owns_##NP) { build_owns<ktl::fallback_builder_max<__VA_ARGS__>, NP>(); }
FBB(2, PT<1>, PT<2>) FBB(3, PT<1>, PT<2>, PT<3>) FBB(4, PT<1>, PT<2>, PT<3>, PT<4>) FBB(5, PT<1>, PT<2>, PT<3>, PT<4>, PT<5>) FBB(6, PT<1>, PT<2>, PT<3>, PT<4>, PT<5>, PT<6>) FBB(7, PT<1>, PT<2>, PT<3>, PT<4>, PT<5>, PT<6>, PT<7>) FBB(8, PT<1>, PT<2>, PT<3>, PT<4>, PT<5>, PT<6>, PT<7>, PT<8>) FBB(9, PT<1>, PT<2>, PT<3>, PT<4>, PT<5>, PT<6>, PT<7>, PT<8>, PT<9>)

// thresholds 16, 32, ... , 16*(NP-1)
template<int NP> static u64 range_of(u64 n) { u64 o = NP; for (u64 i = NP - 1; i >= 1; i--) o = ite(n <= 16 * i, i, o); return o; }
template<class X, int NP> static void sgb_alloc() {
  vc_world(); X x; u64 n = vc_any("n"), o = range_of<NP>(n); log_reset();
  u64 p = adr(x.allocate(n));
  vc_check(log_n() == 1 && log_is(0, EV_ALLOC, o, n, 0), "exactly the part whose range holds n is asked, for n bytes"); vc_check(p == log_r(0), "A03,A05: its answer is returned"); vc_reach("asked");
}
template<class X, int NP> static void sgb_dealloc() {
  vc_world(); X x; u64 n = vc_any("n"), o = range_of<NP>(n); u64 p = vc_someblock("p", o, n); log_reset();
  x.deallocate((void*)p, n);
  vc_reach("returned");
  vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, o, p, n), "exactly the supplying part gets the block back, with its size");
}
template<size_t K> using TH = ktl::threshold<16 * K>;
#define SGB(NP, ...) \
  H(sgmin_alloc_##NP) { sgb_alloc<ktl::segragator_builder_min<__VA_ARGS__>, NP>(); } H(sgmin_dealloc_##NP) { sgb_dealloc<ktl::segragator_builder_min<__VA_ARGS__>, NP>(); } \
  H(sgmin_cons_##NP) { build_cons<ktl::segragator_builder_min<__VA_ARGS__>, NP>(); } H(sgmin_owns_##NP) { build_owns<ktl::segragator_builder_min<__VA_ARGS__>, NP>(); } \
  H(sgmax_alloc_##NP) { sgb_alloc<ktl::segragator_builder_max<__VA_ARGS__>, NP>(); } H(sgmax_dealloc_##NP) { sgb_dealloc<ktl::segragator_builder_max<__VA_ARGS__>, NP>(); } \
  H(sgmax_cons_##NP) { build_cons<ktl::segragator_builder_max<__VA_ARGS__>, NP>(); } H(sgmax_owns_##NP) { build_owns<ktl::segragator_builder_max<__VA_ARGS__>, NP>(); }
SGB(2, PT<1>, TH<1>, PT<2>) SGB(3, PT<1>, TH<1>, PT<2>, TH<2>, PT<3>) SGB(4, PT<1>, TH<1>, PT<2>, TH<2>, PT<3>, TH<3>, PT<4>) SGB(5, PT<1>, TH<1>, PT<2>, TH<2>, PT<3>, TH<3>, PT<4>, TH<4>, PT<5>)
SGB(6, PT<1>, TH<1>, PT<2>, TH<2>, PT<3>, TH<3>, PT<4>, TH<4>, PT<5>, TH<5>, PT<6>) SGB(7, PT<1>, TH<1>, PT<2>, TH<2>, PT<3>, TH<3>, PT<4>, TH<4>, PT<5>, TH<5>, PT<6>, TH<6>, PT<7>)
SGB(8, PT<1>, TH<1>, PT<2>, TH<2>, PT<3>, TH<3>, PT<4>, TH<4>, PT<5>, TH<5>, PT<6>, TH<6>, PT<7>, TH<7>, PT<8>)
