// C01, C02, C07 for trivial_vector
#include "elem.h"
#include "ktl/containers/trivial_vector.h"
typedef ktl::trivial_vector<E, TA<E>> V;
// every reachable state (storage of any capacity, size up to it, any contents; or no storage at all) is built through the interface
struct St { V x; u64 id, b, n, c, h; };
#define STATE(x, id, b, n, c) u64 id = newid("id"); TA<E> al_##x(id); u64 c = vc_any("capacity"), n = vc_any("size"); vc_assume(n <= c); \
  bool has_##x = vc_fork(vc_any("has_storage") != 0); V x(al_##x); if (!has_##x) { vc_assume(c == 0); } else { new (&x) V((size_t)c, al_##x); x.resize(n); } \
  u64 b = adr(x.data()); vc_term(T_PTR, b);
// the same, built in place
static void build(V* x, u64 id, u64 c, u64 n) { TA<E> al(id); if (!vc_fork(vc_any("has_storage") != 0)) { vc_assume(c == 0); new (x) V(al); } else { new (x) V((size_t)c, al); x->resize(n); } vc_term(T_PTR, adr(x->data())); }
struct Box { alignas(V) char m[sizeof(V)]; V& v() { return *(V*)m; } };
#define MAKE(x, id, b, n, c) u64 id = newid("id"), c = vc_any("capacity"), n = vc_any("size"); vc_assume(n <= c); vc_assume(c < HEAP_HI); Box box_##x; build(&box_##x.v(), id, c, n); V& x = box_##x.v(); u64 b = adr(x.data());
// representation: size and storage agree with each other and with the allocator
static void wf(const V& x, u64 id) {
  u64 d = adr(x.data()), n = x.size(), c = x.capacity(); vc_term(T_PTR, d);
  vc_check(n <= c, "C02: capacity is at least the size");
  vc_check(adr(x.begin()) == d && adr(x.end()) == d + n * SZ && x.empty() == (n == 0), "C01: iterators span the elements");
  if (d == 0) vc_check(c == 0, "C02: without storage there is no capacity"); else vc_check(live(d) != 0 && bsize(d) == c * SZ && owner(d) == id, "C02: the storage has the capacity and belongs to the allocator");
}
// destroying it leaves nothing behind
static void finish(V& x, u64 id) { wf(x, id); x.~V(); vc_check(held() == 0, "C02: every storage block is returned exactly once"); vc_dead(); }
#define OLD(s, b) [=](u64 o) { return vc_hload_at(s, (b) + o); }
// an arbitrary value: one of its own elements or any other
#define CHECKCELLS(what) vc_check(x.size() == n + 1, "C01: one element is added"); \
  cells("C01: the other elements are unchanged and in order", adr(x.data()), n * SZ, OLD(s, b)); \
  cells("C01: the new element is the value given", adr(x.data()) + n * SZ, SZ, [=](u64 o) { return ve(o); })

H(v_ctor) { world(); u64 id = newid("id"); TA<E> a(id); V x(a); vc_reach("empty"); vc_check(x.size() == 0 && x.capacity() == 0 && held() == 0, "C01: a new vector is empty"); finish(x, id); }
H(v_ctor_default) { world(); V x; vc_reach("empty"); vc_check(x.size() == 0 && held() == 0, "C01: a new vector is empty"); finish(x, x.m_Alloc.id); }
H(v_ctor_n) { world(); u64 id = newid("id"), n = vc_any("n"); TA<E> a(id); V x((size_t)n, a); vc_reach("sized"); vc_check(x.size() == n && x.capacity() >= n, "C01: the vector has the size asked for"); finish(x, id); }
H(v_ctor_fill) { world(); u64 id = newid("id"), n = vc_any("n"); TA<E> a(id); Val v = anyval(); E e = mk(v); u64 s = vc_snap(); inv_fill(v, s); V x((size_t)n, e, a); vc_inv_clear(); vc_reach("filled");
  vc_check(x.size() == n, "C01: the vector has the size asked for"); cells("C01: every element is the value given", adr(x.data()), n * SZ, [=](u64 o) { return vcell(v, (o / CELL) % CPE); }); finish(x, id); }
static u64 source(u64 n) { u64 s = vc_any("source"); vc_assume(s >= HEAP_LO && s < HEAP_HI && n < HEAP_HI && n * SZ < HEAP_HI); s = vc_someblock("source", 70001, n * SZ); vc_gset("srcsize", 0, n * SZ); return s; }
H(v_ctor_list) { world(); u64 id = newid("id"), n = vc_any("n"); vc_assume(n < HEAP_HI); vc_gzero("srcsize", 0); u64 src = source(n), s = vc_snap(); TA<E> a(id); std::initializer_list<E> il((const E*)src, n); inv_copy(s, src); V x(il, a); vc_inv_clear(); vc_reach("list");
  vc_check(x.size() == n, "C01: the vector has the size of the list"); cells("C01: the elements are those of the list", adr(x.data()), n * SZ, OLD(s, src)); cells("C01: the source is unchanged", src, n * SZ, OLD(s, src)); finish(x, id); }
H(v_ctor_range) { world(); u64 id = newid("id"), n = vc_any("n"); vc_assume(n < HEAP_HI); vc_gzero("srcsize", 0); u64 src = source(n), s = vc_snap(); TA<E> a(id); inv_copy(s, src); V x((const E*)src, (const E*)src + n, a); vc_inv_clear(); vc_reach("range");
  vc_check(x.size() == n, "C01: the vector has the size of the range"); cells("C01: the elements are those of the range", adr(x.data()), n * SZ, OLD(s, src)); cells("C01: the source is unchanged", src, n * SZ, OLD(s, src)); finish(x, id); }
// ---- elements and iterators
H(v_access) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(); u64 i = vc_any("i"); vc_assume(i < n); const V& cx = x; vc_reach("accessed");
  u64 at = b + i * SZ;
  vc_check(adr(&x[i]) == at && adr(&cx[i]) == at && adr(&x.at(i)) == at && adr(&cx.at(i)) == at, "C01: every accessor gives the element at the position");
  vc_check(adr(cx.begin()) == b && adr(cx.end()) == b + n * SZ && adr(cx.data()) == b, "C01: iterators span the elements");
  vc_check(adr(&*x.rbegin()) == b + (n - 1) * SZ && adr(&*cx.rbegin()) == b + (n - 1) * SZ && adr(x.rend().base()) == b && adr(cx.rend().base()) == b, "C01: reverse iterators span the elements backwards");
  Val v = anyval(); x[i] = mk(v); cells("C01: assigning to an element changes it alone", b, n * SZ, [=](u64 o) { return ite((o >= i * SZ) & (o < i * SZ + SZ), vcell(v, (o / CELL) % CPE), vc_hload_at(s, b + o)); }); finish(x, id); }
// ---- adding
#define VALUE Val v = anyval(); E e = mk(v); auto ve = [=](u64 o) { return vcell(v, o / CELL); };
#define OWNVALUE u64 i = vc_any("own_index"); vc_assume(i < n); auto ve = [=](u64 o) { return vc_hload_at(s, b + i * SZ + o); };
#define ADDED(r) vc_check(adr(r) == adr(x.data()) + n * SZ, "C01: the returned iterator points at the new element"); if (n < c) { vc_reach("room"); vc_check(adr(x.data()) == b, "C01: iterators stay valid while there is room"); } else vc_reach("reallocated"); CHECKCELLS(); finish(x, id)
#define CASES(name, vec, call) H(v_##name) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(); vec; inv_copy(s, b); E* r = call; vc_inv_clear(); ADDED(r); }
CASES(push, VALUE, x.push_back((const E&)e))
CASES(push_own, OWNVALUE, x.push_back((const E&)x[i]))
CASES(push_move, VALUE, x.push_back(std::move(e)))
CASES(push_move_own, OWNVALUE, x.push_back(std::move(x[i])))
CASES(emplace_back, VALUE, x.emplace_back((const E&)e))
CASES(emplace_back_own, OWNVALUE, x.emplace_back(x[i]))
H(v_push_range) { world(); MAKE(x, id, b, n, c); u64 m = vc_any("m"); vc_assume(m < HEAP_HI); vc_gzero("srcsize", 0); u64 src = source(m); vc_assume(src != b); u64 s = vc_snap();
  inv_copy(s, b); E* r = x.push_back((const E*)src, (const E*)src + m); vc_inv_clear();
  if (m <= c - n) vc_reach("room"); else vc_reach("reallocated");
  vc_check(adr(r) == adr(x.data()) + n * SZ, "C01: the returned iterator points at the first new element"); vc_check(x.size() == n + m, "C01: the elements of the range are added");
  cells("C01: the other elements are unchanged and in order", adr(x.data()), n * SZ, OLD(s, b)); cells("C01: the new elements are those of the range", adr(x.data()) + n * SZ, m * SZ, OLD(s, src)); cells("C01: the source is unchanged", src, m * SZ, OLD(s, src)); finish(x, id); }
H(v_push_range_own) { world(); MAKE(x, id, b, n, c); u64 i = vc_any("i"), m = vc_any("m"); vc_assume(i <= n && m <= n - i); u64 s = vc_snap();
  inv_copy(s, b); E* r = x.push_back((const E*)x.data() + i, (const E*)x.data() + i + m); vc_inv_clear();
  if (m <= c - n) vc_reach("room"); else vc_reach("reallocated");
  vc_check(adr(r) == adr(x.data()) + n * SZ, "C01: the returned iterator points at the first new element"); vc_check(x.size() == n + m, "C01: the elements of the range are added");
  cells("C01: the other elements are unchanged and in order", adr(x.data()), n * SZ, OLD(s, b)); cells("C01: the new elements are those of the range", adr(x.data()) + n * SZ, m * SZ, OLD(s, b + i * SZ)); finish(x, id); }
#define INSERTED auto at = pos * SZ; vc_check(x.size() == n + 1, "C01: one element is added"); if (n < c) vc_reach("room"); else vc_reach("reallocated"); \
  cells("C01: the elements before the position are unchanged", adr(x.data()), at, OLD(s, b)); cells("C01: the new element is at the position", adr(x.data()) + at, SZ, ve); \
  cells("C01: the elements after the position follow in order", adr(x.data()) + at + SZ, (n - pos) * SZ, OLD(s, b + at)); finish(x, id)
H(v_emplace) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(); VALUE; u64 pos = vc_any("pos"); vc_assume(pos <= n); inv_copy(s, b); x.emplace(x.begin() + pos, (const E&)e); vc_inv_clear(); INSERTED; }
H(v_emplace_own) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(); OWNVALUE; u64 pos = vc_any("pos"); vc_assume(pos <= n); inv_copy(s, b); x.emplace(x.begin() + pos, x[i]); vc_inv_clear(); INSERTED; }
// ---- removing
#define ERASED(f, m) vc_check(x.size() == n - (m), "C01: the elements of the range are removed"); vc_check(adr(r) == b + (f) * SZ && adr(x.data()) == b && x.capacity() == c, "C01: the returned iterator points behind the removed elements"); \
  cells("C01: the elements before are unchanged", b, (f) * SZ, OLD(s, b)); cells("C01: the elements behind follow in order", b + (f) * SZ, (n - (f) - (m)) * SZ, OLD(s, b + ((f) + (m)) * SZ)); finish(x, id)
H(v_erase) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(), i = vc_any("i"); vc_assume(i < n); E* r = x.erase(x.begin() + i); vc_reach("erased"); ERASED(i, 1); }
H(v_erase_range) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(), i = vc_any("i"), m = vc_any("m"); vc_assume(i <= n && m <= n - i); E* r = x.erase(x.begin() + i, x.begin() + i + m); vc_reach("erased"); ERASED(i, m); }
H(v_pop) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(); vc_assume(n > 0); E e = x.pop_back(); vc_reach("popped"); Val v; for (int j = 0; j < CPE; j++) v.c[j] = vc_hload(b + (n - 1) * SZ + j * CELL);
  vc_check(eq(e, v), "C01: the last element is returned"); vc_check(x.size() == n - 1, "C01: the last element is removed"); cells("C01: the other elements are unchanged and in order", adr(x.data()), (n - 1) * SZ, OLD(s, b)); finish(x, id); }
H(v_clear) { world(); MAKE(x, id, b, n, c); x.clear(); vc_reach("cleared"); vc_check(x.size() == 0 && x.empty(), "C01: a cleared vector is empty"); vc_check(x.capacity() == c && adr(x.data()) == b, "C01: clearing keeps the storage"); finish(x, id); }
// ---- size and capacity
H(v_resize) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(), m = vc_any("m"); inv_copy(s, b); x.resize(m); vc_inv_clear(); if (m <= c) vc_reach("room"); else vc_reach("reallocated");
  vc_check(x.size() == m, "C01: the vector has the size asked for"); cells("C01: the common elements are unchanged", adr(x.data()), ite(m < n, m, n) * SZ, OLD(s, b)); finish(x, id); }
H(v_reserve) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(), m = vc_any("m"); inv_copy(s, b); x.reserve(m); vc_inv_clear(); if (m <= c) vc_reach("room"); else vc_reach("reallocated");
  vc_check(x.capacity() >= m && x.capacity() >= c, "C01: the capacity asked for is there"); vc_check(x.size() == n, "C01: reserving keeps the size"); cells("C01: the elements are unchanged", adr(x.data()), n * SZ, OLD(s, b)); finish(x, id); }
H(v_dtor) { world(); MAKE(x, id, b, n, c); vc_reach("destroyed"); finish(x, id); }
// ---- copies and moves
#define SAME_SRC(y, yb, yn, yc) vc_check(y.size() == yn && y.capacity() == yc && adr(y.data()) == yb, "C07: the source is unchanged"); cells("C07: the elements of the source are unchanged", yb, yn * SZ, OLD(s, yb))
#define EMPTY(y) vc_check(y.size() == 0 && y.capacity() == 0 && y.data() == nullptr, "C07: the source of a move is empty")
#define IS_COPY(x, yb, yn) vc_check(x.size() == yn, "C07: the copy has the size of the source"); cells("C07: the copy has the elements of the source", adr(x.data()), yn * SZ, OLD(s, yb)); vc_check(adr(x.data()) != yb || yb == 0, "C07: the copy is independent of the source")
#define TOOK(x, yb, yn, yc) vc_check(adr(x.data()) == yb && x.size() == yn && x.capacity() == yc, "C07: the destination takes over the contents"); cells("C07: the elements are unchanged", yb, yn * SZ, OLD(s, yb))
#define BOTH(x, xid, y, yid) wf(x, xid); wf(y, yid); x.~V(); wf(y, yid); y.~V(); vc_check(held() == 0, "C02: every storage block is returned exactly once"); vc_dead()
H(v_copy) { world(); MAKE(y, id, b, n, c); u64 s = vc_snap(); inv_copy(s, b); V x((const V&)y); vc_inv_clear(); vc_reach("copied"); SAME_SRC(y, b, n, c); IS_COPY(x, b, n); BOTH(x, id, y, id); }
H(v_copy_alloc) { world(); MAKE(y, id, b, n, c); u64 i2 = newid("id2"); TA<E> a(i2); u64 s = vc_snap(); inv_copy(s, b); V x((const V&)y, a); vc_inv_clear(); vc_reach("copied"); SAME_SRC(y, b, n, c); IS_COPY(x, b, n); BOTH(x, i2, y, id); }
H(v_move) { world(); MAKE(y, id, b, n, c); u64 s = vc_snap(); V x(std::move(y)); vc_reach("moved"); EMPTY(y); TOOK(x, b, n, c); BOTH(x, id, y, id); }
H(v_move_alloc) { world(); MAKE(y, id, b, n, c); u64 i2 = newid("id2"); TA<E> a(i2); u64 s = vc_snap(); inv_copy(s, b); V x(std::move(y), a); vc_inv_clear(); vc_reach("moved"); EMPTY(y); vc_check(x.size() == n, "C07: the destination has the size of the source"); cells("C07: the destination has the elements of the source", adr(x.data()), n * SZ, OLD(s, b)); BOTH(x, i2, y, id); }
H(v_copy_assign) { world(); MAKE(y, id, b, n, c); MAKE(x, i2, b2, n2, c2); u64 s = vc_snap(); inv_copy(s, b); V& r = (x = (const V&)y); vc_inv_clear(); vc_reach("assigned"); vc_check(&r == &x, "C07: assignment returns its target"); SAME_SRC(y, b, n, c); IS_COPY(x, b, n); BOTH(x, x.m_Alloc.id, y, id); }
H(v_move_assign) { world(); MAKE(y, id, b, n, c); MAKE(x, i2, b2, n2, c2); u64 s = vc_snap(); V& r = (x = std::move(y)); vc_reach("assigned"); vc_check(&r == &x, "C07: assignment returns its target"); EMPTY(y); TOOK(x, b, n, c); BOTH(x, id, y, y.m_Alloc.id); }
H(v_copy_self) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(); x = (const V&)x; vc_reach("assigned"); vc_check(x.size() == n, "C07: self-assignment leaves the container unchanged"); cells("C07: self-assignment leaves the elements unchanged", adr(x.data()), n * SZ, OLD(s, b)); finish(x, id); }
H(v_move_self) { world(); MAKE(x, id, b, n, c); u64 s = vc_snap(); x = (V&&)x; vc_reach("assigned"); vc_check(x.size() == n, "C07: self-assignment leaves the container unchanged"); cells("C07: self-assignment leaves the elements unchanged", adr(x.data()), n * SZ, OLD(s, b)); finish(x, id); }
// a moved-from vector can be used again
H(v_reuse) { world(); MAKE(y, id, b, n, c); V x(std::move(y)); VALUE; E* r = y.push_back((const E&)e); vc_reach("reused"); vc_check(y.size() == 1 && adr(r) == adr(y.data()), "C07: a moved-from container is reusable"); cells("C07: and holds what is put in", adr(y.data()), SZ, ve); BOTH(x, id, y, y.m_Alloc.id); }
