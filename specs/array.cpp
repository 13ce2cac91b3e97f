// C03, C02, C07 for trivial_array
#include "elem.h"
#include "ktl/containers/trivial_array.h"
typedef ktl::trivial_array<E, TA<E>> A;
struct Box { alignas(A) char m[sizeof(A)]; A& v() { return *(A*)m; } };
// every reachable state: storage of any size, any contents; or no storage at all
static void build(A* x, u64 id, u64 n) { TA<E> al(id); if (!vc_fork(vc_any("has_storage") != 0)) { vc_assume(n == 0); new (x) A(al); } else new (x) A((size_t)n, al); vc_term(T_PTR, adr(x->data())); }
#define MAKE(x, id, b, n) u64 id = newid("id"), n = vc_any("size"); vc_assume(n < HEAP_HI); Box box_##x; build(&box_##x.v(), id, n); A& x = box_##x.v(); u64 b = adr(x.data());
static void wf(const A& x, u64 id) {
  u64 d = adr(x.data()), n = x.size(); vc_term(T_PTR, d);
  vc_check(adr(x.begin()) == d && adr(x.end()) == d + n * SZ && x.empty() == (n == 0), "C03: iterators span the elements");
  if (d == 0) vc_check(n == 0, "C02: without storage there are no elements"); else vc_check(live(d) != 0 && bsize(d) == n * SZ && owner(d) == id, "C02: the storage has the size and belongs to the allocator");
}
static void finish(A& x, u64 id) { wf(x, id); x.~A(); vc_check(held() == 0, "C02: every storage block is returned exactly once"); vc_dead(); }
#define OLD(s, b) [=](u64 o) { return vc_hload_at(s, (b) + o); }
static u64 source(u64 n) { vc_assume(n < HEAP_HI && n * SZ < HEAP_HI); u64 s = vc_someblock("source", 70001, n * SZ); vc_gset("srcsize", 0, n * SZ); return s; }
H(a_ctor) { world(); u64 id = newid("id"); TA<E> a(id); A x(a); vc_reach("empty"); vc_check(x.size() == 0 && x.empty() && held() == 0, "C03: a new array is empty"); finish(x, id); }
H(a_ctor_default) { world(); A x; vc_reach("empty"); vc_check(x.size() == 0 && held() == 0, "C03: a new array is empty"); finish(x, x.m_Alloc.id); }
H(a_ctor_n) { world(); u64 id = newid("id"), n = vc_any("n"); TA<E> a(id); A x((size_t)n, a); vc_reach("sized"); vc_check(x.size() == n, "C03: the array has the size asked for"); finish(x, id); }
H(a_ctor_fill) { world(); u64 id = newid("id"), n = vc_any("n"); TA<E> a(id); Val v = anyval(); E e = mk(v); u64 s = vc_snap(); inv_fill(v, s); A x((size_t)n, e, a); vc_inv_clear(); vc_reach("filled");
  vc_check(x.size() == n, "C03: the array has the size asked for"); cells("C03: every element is the value given", adr(x.data()), n * SZ, [=](u64 o) { return vcell(v, (o / CELL) % CPE); }); finish(x, id); }
H(a_ctor_list) { world(); u64 id = newid("id"), n = vc_any("n"); vc_gzero("srcsize", 0); u64 src = source(n), s = vc_snap(); TA<E> a(id); std::initializer_list<E> il((const E*)src, n); inv_copy(s, src); A x(il, a); vc_inv_clear(); vc_reach("list");
  vc_check(x.size() == n, "C03: the array has the size of the list"); cells("C03: the elements are those of the list", adr(x.data()), n * SZ, OLD(s, src)); cells("C03: the source is unchanged", src, n * SZ, OLD(s, src)); finish(x, id); }
H(a_ctor_range) { world(); u64 id = newid("id"), n = vc_any("n"); vc_gzero("srcsize", 0); u64 src = source(n), s = vc_snap(); TA<E> a(id); inv_copy(s, src); A x((const E*)src, (const E*)src + n, a); vc_inv_clear(); vc_reach("range");
  vc_check(x.size() == n, "C03: the array has the size of the range"); cells("C03: the elements are those of the range", adr(x.data()), n * SZ, OLD(s, src)); cells("C03: the source is unchanged", src, n * SZ, OLD(s, src)); finish(x, id); }
H(a_access) { world(); MAKE(x, id, b, n); u64 s = vc_snap(); u64 i = vc_any("i"); vc_assume(i < n); const A& cx = x; vc_reach("accessed"); u64 at = b + i * SZ;
  vc_check(adr(&x[i]) == at && adr(&cx[i]) == at && adr(&x.at(i)) == at && adr(&cx.at(i)) == at, "C03: every accessor gives the element at the position");
  vc_check(adr(x.begin()) == b && adr(x.end()) == b + n * SZ && adr(cx.data()) == b, "C03: iterators span the elements");
  vc_check(adr(&*x.rbegin()) == b + (n - 1) * SZ && adr(&*cx.rbegin()) == b + (n - 1) * SZ && adr(x.rend().base()) == b && adr(cx.rend().base()) == b, "C03: reverse iterators span the elements backwards");
  Val v = anyval(); x[i] = mk(v); cells("C03: assigning to an element changes it alone", b, n * SZ, [=](u64 o) { return ite((o >= i * SZ) & (o < i * SZ + SZ), vcell(v, (o / CELL) % CPE), vc_hload_at(s, b + o)); }); finish(x, id); }
H(a_resize) { world(); MAKE(x, id, b, n); u64 s = vc_snap(), m = vc_any("m"); inv_copy(s, b); x.resize(m); vc_inv_clear(); if (m < n) vc_reach("smaller"); else if (m > n) vc_reach("larger"); else vc_reach("same");
  vc_check(x.size() == m, "C03: the array has the size asked for"); cells("C03: the common elements are unchanged", adr(x.data()), ite(m < n, m, n) * SZ, OLD(s, b)); finish(x, id); }
H(a_assign) { world(); MAKE(x, id, b, n); u64 m = vc_any("m"); vc_gzero("srcsize", 0); u64 src = source(m); vc_assume(src != b); u64 s = vc_snap(); inv_copy(s, src); x.assign((const E*)src, (const E*)src + m); vc_inv_clear(); if (m == n) vc_reach("same"); else vc_reach("resized");
  vc_check(x.size() == m, "C03: the array has the size of the range"); cells("C03: the elements are those of the range", adr(x.data()), m * SZ, OLD(s, src)); cells("C03: the source is unchanged", src, m * SZ, OLD(s, src)); finish(x, id); }
H(a_assign_own) { world(); MAKE(x, id, b, n); u64 i = vc_any("i"), m = vc_any("m"); vc_assume(i <= n && m <= n - i); u64 s = vc_snap(); inv_copy(s, b + i * SZ); x.assign((const E*)x.data() + i, (const E*)x.data() + i + m); vc_inv_clear(); if (m == n) vc_reach("same"); else vc_reach("resized");
  vc_check(x.size() == m, "C03: the array has the size of the range"); cells("C03: the elements are those of the range", adr(x.data()), m * SZ, OLD(s, b + i * SZ)); finish(x, id); }
H(a_dtor) { world(); MAKE(x, id, b, n); vc_reach("destroyed"); finish(x, id); }
#define SAME_SRC(y, yb, yn) vc_check(y.size() == yn && adr(y.data()) == yb, "C03,C07: the source is unchanged"); cells("C03,C07: the elements of the source are unchanged", yb, yn * SZ, OLD(s, yb))
#define EMPTY(y) vc_check(y.size() == 0 && y.data() == nullptr, "C03,C07: the source of a move is empty")
#define IS_COPY(x, yb, yn) vc_check(x.size() == yn, "C03,C07: the copy has the size of the source"); cells("C03,C07: the copy has the elements of the source", adr(x.data()), yn * SZ, OLD(s, yb)); vc_check(adr(x.data()) != yb || yb == 0, "C07: the copy is independent of the source")
#define TOOK(x, yb, yn) vc_check(adr(x.data()) == yb && x.size() == yn, "C03,C07: the destination takes over the contents"); cells("C03,C07: the elements are unchanged", yb, yn * SZ, OLD(s, yb))
#define BOTH(x, xid, y, yid) wf(x, xid); wf(y, yid); x.~A(); wf(y, yid); y.~A(); vc_check(held() == 0, "C02: every storage block is returned exactly once"); vc_dead()
H(a_copy) { world(); MAKE(y, id, b, n); u64 s = vc_snap(); inv_copy(s, b); A x((const A&)y); vc_inv_clear(); vc_reach("copied"); SAME_SRC(y, b, n); IS_COPY(x, b, n); BOTH(x, id, y, id); }
H(a_copy_alloc) { world(); MAKE(y, id, b, n); u64 i2 = newid("id2"); TA<E> a(i2); u64 s = vc_snap(); inv_copy(s, b); A x((const A&)y, a); vc_inv_clear(); vc_reach("copied"); SAME_SRC(y, b, n); IS_COPY(x, b, n); BOTH(x, i2, y, id); }
H(a_move) { world(); MAKE(y, id, b, n); u64 s = vc_snap(); A x(std::move(y)); vc_reach("moved"); EMPTY(y); TOOK(x, b, n); BOTH(x, id, y, id); }
H(a_move_alloc) { world(); MAKE(y, id, b, n); u64 i2 = newid("id2"); TA<E> a(i2); u64 s = vc_snap(); inv_copy(s, b); A x(std::move(y), a); vc_inv_clear(); vc_reach("moved"); EMPTY(y); vc_check(x.size() == n, "C03,C07: the destination has the size of the source"); cells("C03,C07: the destination has the elements of the source", adr(x.data()), n * SZ, OLD(s, b)); BOTH(x, i2, y, id); }
H(a_copy_assign) { world(); MAKE(y, id, b, n); MAKE(x, i2, b2, n2); u64 s = vc_snap(); inv_copy(s, b); A& r = (x = (const A&)y); vc_inv_clear(); vc_reach("assigned"); vc_check(&r == &x, "C07: assignment returns its target"); SAME_SRC(y, b, n); IS_COPY(x, b, n); BOTH(x, x.m_Alloc.id, y, id); }
H(a_move_assign) { world(); MAKE(y, id, b, n); MAKE(x, i2, b2, n2); u64 s = vc_snap(); A& r = (x = std::move(y)); vc_reach("assigned"); vc_check(&r == &x, "C07: assignment returns its target"); EMPTY(y); TOOK(x, b, n); BOTH(x, id, y, y.m_Alloc.id); }
H(a_copy_self) { world(); MAKE(x, id, b, n); u64 s = vc_snap(); x = (const A&)x; vc_reach("assigned"); vc_check(x.size() == n, "C07: self-assignment leaves the container unchanged"); cells("C07: self-assignment leaves the elements unchanged", adr(x.data()), n * SZ, OLD(s, b)); finish(x, id); }
H(a_move_self) { world(); MAKE(x, id, b, n); u64 s = vc_snap(); x = (A&&)x; vc_reach("assigned"); vc_check(x.size() == n, "C07: self-assignment leaves the container unchanged"); cells("C07: self-assignment leaves the elements unchanged", adr(x.data()), n * SZ, OLD(s, b)); finish(x, id); }
H(a_swap) { world(); MAKE(y, id, b, n); MAKE(x, i2, b2, n2); u64 s = vc_snap(); std::swap(x, y); vc_reach("swapped"); TOOK(x, b, n); TOOK(y, b2, n2); BOTH(x, id, y, i2); }
H(a_reuse) { world(); MAKE(y, id, b, n); A x(std::move(y)); u64 m = vc_any("m"); vc_gzero("srcsize", 0); u64 src = source(m), s = vc_snap(); inv_copy(s, src); y.assign((const E*)src, (const E*)src + m); vc_inv_clear(); vc_reach("reused"); vc_check(y.size() == m, "C03,C07: a moved-from container is reusable"); cells("C03,C07: and holds what is put in", adr(y.data()), m * SZ, OLD(s, src)); BOTH(x, id, y, y.m_Alloc.id); }
