// C08: packed_ptr
#include "vc.h"
#include "ktl/containers/packed_ptr.h"
template<class P> static bool same(const P& a, const P& b) { static_assert(sizeof(P) == 8, ""); return *(const u64*)&a == *(const u64*)&b; }
template<size_t A> struct alignas(A < 4096 ? A : 4096) El { char c; };
// every reachable state equals the one the constructor builds for some (pointer, integer):
// the constructor makes one, and setting a half of one gives the one built for the new pair
template<size_t B, size_t A, class I> static void packed() {
  typedef ktl::packed_ptr<El<A>*, B, A> P;
  u64 p = vc_any("p"), q = vc_any("q"); vc_assume((p & (A - 1)) == 0 && (q & (A - 1)) == 0);
  I v = (I)vc_any("v"), w = (I)vc_any("w");
  const u64 mask = ((u64)1 << B) - 1, vm = (u64)v & mask, wm = (u64)w & mask;
  El<A>*pp = (El<A>*)p, *qq = (El<A>*)q;
  P x(pp, v); const P& cx = x; vc_reach("packed");
  vc_check(adr(cx.get_ptr()) == p, "the pointer is returned exactly"); vc_check(cx.template get_int<I>() == (I)vm, "the integer is returned, reduced to the declared bits");
  vc_check(cx.template get_int<u64>() == vm, "the integer is returned in a wider type"); vc_check((bool)cx == (p != 0 || vm != 0), "it converts to false only when both are zero");
  vc_check(same(x, P(pp, (u64)vm)), "only the declared bits of the integer matter");
  P y(x); y.set_ptr(qq); vc_check(same(y, P(qq, v)), "setting the pointer leaves the integer"); vc_check(adr(y.get_ptr()) == q && y.template get_int<u64>() == vm, "setting the pointer is exact");
  P z(x); z.set_int(w); vc_check(same(z, P(pp, w)), "setting the integer leaves the pointer"); vc_check(adr(z.get_ptr()) == p && z.template get_int<u64>() == wm, "setting the integer is exact");
  vc_check(same(P(), P(nullptr, (I)0)) && !P(), "a new packed pointer is null and zero");
  P c(x), d; d = x; vc_check(same(c, x) && same(d, x) && adr(x.get_ptr()) == p, "copies hold the same values");
}
#define PK(N, B, A) H(pk_##N##_8) { packed<B, A, uint8_t>(); } H(pk_##N##_16) { packed<B, A, uint16_t>(); } H(pk_##N##_32) { packed<B, A, uint32_t>(); } H(pk_##N##_64) { packed<B, A, uint64_t>(); } H(pk_##N##_b) { packed<B, A, bool>(); }
PK(a, 0, 1) PK(b, 0, 8) PK(c, 1, 2) PK(d, 1, 8) PK(e, 2, 4) PK(f, 2, 16) PK(g, 3, 8) PK(h, 4, 16) PK(i, 5, 64) PK(j, 6, 64) PK(k, 8, 4096) PK(l, 12, 4096) PK(m, 9, 1 << 20) PK(n, 20, 1 << 20) PK(o, 31, 1ull << 31) PK(p, 32, 1ull << 32) PK(q, 33, 1ull << 40)
