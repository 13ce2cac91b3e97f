// A01/A02/A03/A04 for linear_allocator and stack_allocator
#include "vc.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/stack_allocator.h"
#define R(n) (((n) + 15) & ~(u64)15)

template<size_t N> struct Lin {
  ktl::linear_allocator<N> a;
  char* data() { return a.m_Data; }
  char*& free_() { return a.m_Free; }
  size_t& cnt() { return a.m_ObjectCount; }
};
template<size_t N> struct Stk {
  ktl::stack<N> s; ktl::stack_allocator<N> a{s};
  char* data() { return s.Data; }
  char*& free_() { return s.Free; }
  size_t& cnt() { return s.ObjectCount; }
};
// representation invariant: free offset f and live byte count c
template<class X> static void arbitrary_state(X& x, u64 N, u64& f, u64& c) {
  f = vc_any("free_offset"); c = vc_any("live_bytes");
  vc_assume((f & 15) == 0); vc_assume(f <= N); vc_assume((c & 15) == 0); vc_assume(c <= f); vc_assume((c != 0) | (f == 0));
  x.free_() = x.data() + f; x.cnt() = c;
}
template<class X> static void valid_state(X& x, u64 N) {
  u64 f = x.free_() - x.data(), c = x.cnt();
  vc_check(f <= N && (f & 15) == 0 && (c & 15) == 0 && c <= f && (c != 0 || f == 0), "representation invariant restored");
}
template<class X, size_t N> static void bump_alloc() {
  X x; u64 f, c; arbitrary_state(x, N, f, c);
  // an arbitrary other live block
  u64 qo = vc_any("other_offset"), qn = vc_any("other_size"); bool q = vc_any("other_exists") != 0;
  vc_assume(imp(q, ((qo & 15) == 0) & (qn >= 1) & (qn <= N) & (qo <= f) & (R(qn) <= f - qo)));
  u64 n = vc_any("n");
  char* d = x.data();
  u64 p = adr(x.a.allocate(n));
  u64 f2 = x.free_() - d, c2 = x.cnt();
  bool fits = (n <= ~(u64)15) & (R(n) <= N - f) & (f < N);
  if (p == 0) {
    vc_reach("refused");
    vc_check(!fits, "A01,A02: a request that fits is served");
    vc_check(f2 == f && c2 == c, "A01,A02,A03: a refused request changes nothing");
  } else {
    vc_reach("served");
    vc_check(fits, "A01,A03: a request that does not fit is refused");
    vc_check((p & 15) == 0, "block is aligned to max_align_t");
    vc_check(p >= adr(d) && p - adr(d) <= N && n <= N - (p - adr(d)), "block lies inside the buffer");
    vc_check(!q || p + n <= adr(d) + qo || adr(d) + qo + qn <= p, "block is disjoint from every live block");
    vc_check(f2 - f == R(n) && c2 - c == R(n), "exactly the rounded size is consumed");
    vc_check(x.a.owns((void*)p), "A01,A04: the block is owned");
    valid_state(x, N);
    vc_check(!q || qo + R(qn) <= f2, "live blocks stay below the free pointer");
  }
  vc_check(x.data() == d, "buffer does not move");
}
template<class X, size_t N> static void bump_dealloc() {
  X x; u64 f, c; arbitrary_state(x, N, f, c);
  char* d = x.data();
  u64 po = vc_any("offset"), n = vc_any("n");
  vc_assume((po & 15) == 0); vc_assume(n <= N); vc_assume(po <= f); vc_assume(R(n) <= f - po); vc_assume(R(n) <= c);
  // an arbitrary other live block, disjoint from the one returned; both are counted in c
  u64 qo = vc_any("other_offset"), qn = vc_any("other_size"); bool q = vc_any("other_exists") != 0;
  vc_assume(imp(q, ((qo & 15) == 0) & (qn >= 1) & (qn <= N) & (qo <= f) & (R(qn) <= f - qo) & ((qo + R(qn) <= po) | (po + R(n) <= qo)) & (R(qn) <= c - R(n))));
  vc_assume(imp(!q, c == R(n)));
  x.a.deallocate(d + po, n);
  u64 f2 = x.free_() - d, c2 = x.cnt();
  vc_reach("returned");
  vc_check(c2 == c - R(n), "live byte count drops by the rounded size");
  vc_check(imp(c2 == 0, f2 == 0), "an empty allocator has its whole buffer free");
  vc_check(imp(c2 != 0 && po + R(n) == f, f2 == po), "returning the newest block frees exactly its space");
  vc_check(imp(c2 != 0 && po + R(n) != f, f2 == f), "returning an older block frees nothing yet");
  vc_check(imp(q, qo + R(qn) <= f2), "space of a live block is never released");
  valid_state(x, N);
  vc_check(x.data() == d, "buffer does not move");
}

// owns() answers by address range, whatever the state, and changes nothing
template<class X, size_t N> static void bump_owns() {
  X x; u64 f, c; arbitrary_state(x, N, f, c);
  u64 p = vc_any("p"), d = adr(x.data());
  bool r = x.a.owns((void*)p);
  if (r) vc_reach("owned"); else vc_reach("not owned");
  vc_check(r == (p >= d && p - d < N), "A04: owns is true exactly inside the buffer");
  vc_check(adr(x.free_()) == d + f && x.cnt() == c, "A04: asking changes nothing");
  vc_check(x.a.max_size() >= (N & ~(u64)15), "max_size admits every request that can be served");
}
// a fresh allocator has its whole buffer available
template<class X, size_t N> static void bump_fresh() {
  X x;
  vc_check(x.free_() == x.data() && x.cnt() == 0, "A02: a new allocator is empty");
  u64 n = vc_any("n"); vc_assume(n <= (N & ~(u64)15)); vc_assume(N >= 16);
  u64 p = adr(x.a.allocate(n));
  vc_reach("first request");
  vc_check(p == adr(x.data()), "A02: the whole buffer of a new allocator is available");
}
template<size_t N> static void lin_move() {
  Lin<N> x; u64 f, c; arbitrary_state(x, N, f, c); vc_assume(c == 0); // moving is documented for allocators without allocations
  { ktl::linear_allocator<N> y(std::move(x.a));
    vc_reach("move construction");
    vc_check(y.m_Free == y.m_Data && y.m_ObjectCount == 0, "A02: a move-constructed allocator has its whole buffer available"); }
  vc_check(x.free_() == x.data() && x.cnt() == 0, "A02: the source keeps its whole buffer");
}
template<size_t N> static void lin_move_assign() {
  Lin<N> x; u64 f, c; arbitrary_state(x, N, f, c); vc_assume(c == 0);
  Lin<N> z; u64 f2, c2; arbitrary_state(z, N, f2, c2);   // blocks of the target are abandoned by assigning over it
  z.a = std::move(x.a);
  vc_reach("move assignment");
  vc_check(z.free_() == z.data() && z.cnt() == 0, "A02: an assigned allocator has its whole buffer available");
  vc_check(x.free_() == x.data() && x.cnt() == 0, "A02: the source keeps its whole buffer");
}
template<size_t N> static void stk_share() {
  ktl::stack<N> s, s2; ktl::stack_allocator<N> a(s), b(a), c(&s2), e(&s2);
  vc_check(a == b && !(a != b), "A13: copies that share a stack are equal"); vc_check(!(a == c) && a != c, "A13: handles of different stacks differ");
  u64 n = vc_any("n"); u64 p = adr(a.allocate(n)); if (p == 0) return;
  vc_reach("shared block");
  u64 q = adr(b.allocate(n)); vc_check(q == 0 || q >= p + n, "A01: handles of one stack never hand out overlapping blocks");
  vc_check(b.owns((void*)p) || N == 0, "A04: every handle of the stack owns the block");
  if (q) b.deallocate((void*)q, n);
  b.deallocate((void*)p, n);
  vc_check(s.Free == s.Data && s.ObjectCount == 0, "A02: space returned through another handle is available again");
  e = a; vc_check(e.m_Block == &s, "assignment refers to the same stack");
  ktl::stack_allocator<N> g(std::move(a)); vc_check(g.m_Block == &s, "moving refers to the same stack");
}
template<size_t N> static void lin_eq() {
  Lin<N> x, y; u64 f, c; arbitrary_state(x, N, f, c); arbitrary_state(y, N, f, c);
  const ktl::linear_allocator<N>&a = x.a, &b = y.a;
  vc_reach("compared");
  vc_check(a == a && !(a != a), "A13: a linear allocator equals itself"); vc_check(!(a == b) && a != b && !(b == a) && b != a, "A13: linear allocators with buffers of their own differ");
  u64 n = vc_any("n"); u64 p = adr(x.a.allocate(n)); vc_check(imp(p != 0, x.a.owns((void*)p) & !y.a.owns((void*)p)), "A04: of two allocators only the one that handed a block out owns it");
}
#define ALL(N) \
  H(lin_eq_##N) { lin_eq<N>(); } \
  H(lin_alloc_##N) { bump_alloc<Lin<N>, N>(); } H(lin_dealloc_##N) { bump_dealloc<Lin<N>, N>(); } H(lin_owns_##N) { bump_owns<Lin<N>, N>(); } \
  H(lin_fresh_##N) { bump_fresh<Lin<N>, N>(); } H(lin_move_##N) { lin_move<N>(); } H(lin_move_assign_##N) { lin_move_assign<N>(); } \
  H(stk_alloc_##N) { bump_alloc<Stk<N>, N>(); } H(stk_dealloc_##N) { bump_dealloc<Stk<N>, N>(); } H(stk_owns_##N) { bump_owns<Stk<N>, N>(); } \
  H(stk_fresh_##N) { bump_fresh<Stk<N>, N>(); } H(stk_share_##N) { stk_share<N>(); }
ALL(1) ALL(16) ALL(20) ALL(64) ALL(1000) ALL(1024) ALL(4096) ALL(8191) ALL(65536)
