// A12 and A11 (and parts of A03, A04, A13): thin wrappers over an opaque allocator
#include "opaque.h"
#include "ktl/ktl.h"
#ifndef SZ
#define SZ 12
#endif
#define ALLCAPS (C_OWNS | C_MAX | C_CONS)
typedef OA<1, ALLCAPS> S;
struct S9 : S { S9() noexcept : S(u64(9)) {} };   // default constructible
struct alignas(SZ % 8 ? 4 : 8) E { uint8_t b[SZ]; };
static u64 newid(const char* s) { u64 id = vc_any(s); vc_assume(id < 65536); return id; }
#define FITS(n) ((n) <= ~(u64)0 / sizeof(E))

// ------------------------------------------------------------------ typed
typedef ktl::type_allocator<E, S> TA;
typedef ktl::type_allocator<Obj, S> TO;
H(ty_alloc) {
  vc_world(); u64 id = newid("id"); TA x{S(id)}; u64 n = vc_any("n"); log_reset();
  u64 p = adr(x.allocate(n));
  if (!FITS(n)) { vc_reach("not representable"); vc_check(p == 0, "A03,A12: a byte count that is not representable is refused"); vc_check(log_n() == 0, "A03: a refused request reaches nobody"); }
  else { vc_check(log_n() == 1 && log_is(0, EV_ALLOC, id, n * sizeof(E), 0), "A03,A12: the request reaches the wrapped allocator once, scaled to bytes"); vc_check(p == log_r(0), "A03,A12: the answer is returned unchanged");
    if (p) { vc_reach("served"); vc_check(bsize(p) == n * sizeof(E), "A03,A12: the block has the size asked for"); } else vc_reach("refused"); }
  vc_check(x.get_allocator().id == id, "A12: the wrapped allocator stays the same"); vc_dead();
}
H(ty_dealloc) {
  vc_world(); u64 id = newid("id"); TA x{S(id)}; u64 n = vc_any("n"); vc_assume(FITS(n)); u64 p = vc_someblock("p", id, n * sizeof(E)); log_reset();
  x.deallocate((E*)p, n); vc_reach("returned");
  vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, id, p, n * sizeof(E)), "A12: the block goes back once with its size in bytes"); vc_dead();
}
// what comes out of allocate goes back in through any equal copy, also of another element type
H(ty_roundtrip) {
  vc_world(); u64 id = newid("id"); TA x{S(id)}; ktl::type_allocator<u64, S> r(x); TA y(r), z(std::move(y)), w(x), v{S(newid("id2"))}, t{S(newid("id3"))}; v = w; t = std::move(w);
  ktl::type_allocator<uint16_t, S> q(std::move(x));   // moving an allocator keeps the source usable
  vc_check(q.get_allocator().id == id && x.get_allocator().id == id && q == x, "A12: moving into another element type keeps the wrapped allocator, and the source keeps it too");
  vc_check(r.get_allocator().id == id && y.get_allocator().id == id && z.get_allocator().id == id && w.get_allocator().id == id && v.get_allocator().id == id && t.get_allocator().id == id, "A12: copying, moving, assigning and rebinding keep the wrapped allocator, and the source keeps it too");
  vc_check(x == r && r == y && x == z && v == x && t == x && !(x != r) && !(v != x) && r == x, "A13: copies of a typed allocator are equal");
  u64 n = vc_any("n"); E* p = x.allocate(n); if (!p) return;
  vc_reach("round trip"); log_reset();
  if (vc_any("which") & 1) z.deallocate(p, n); else t.deallocate(p, n);
  vc_check(log_n() == 1 && log_k(0) == EV_DEALLOC, "A12: an equal copy takes the block back"); vc_dead();
}
H(ty_cons) {
  vc_world(); u64 id = newid("id"); TO x{S(id)}; u64 p = vc_someblock("p", id, sizeof(Obj)), v = vc_any("v"); log_reset();
  x.construct((Obj*)p, v); vc_reach("constructed");
  vc_check(log_n() == 2 && log_is(0, EV_CONS, id, p, 1) && log_is(1, EV_TCTOR, 0, p, v), "A12: construction reaches the wrapped allocator exactly once");
  log_reset(); x.destroy((Obj*)p);
  vc_check(log_n() == 2 && log_is(0, EV_DEST, id, p, 0) && log_is(1, EV_TDTOR, 0, p, 0), "A12: destruction reaches the wrapped allocator exactly once"); vc_dead();
}
H(ty_owns) {
  vc_world(); u64 id = newid("id"); TA x{S(id)}; u64 p = vc_any("p"); log_reset();
  bool r = x.owns((E*)p); vc_reach("asked");
  vc_check(r == oa_owns(id, p), "A04,A12: owns answers as the wrapped allocator"); vc_check(log_n() == 0, "A04,A12: asking changes nothing");
  u64 m = x.max_size(), w = vc_fun1("max_size", id);
  vc_check(m == w / sizeof(E), "A12: max_size is the wrapped one in elements"); vc_check(log_n() == 0, "A12: asking changes nothing");
}
H(ty_eq) {
  vc_world(); TA x{S(newid("a"))}, y{S(newid("b"))}; ktl::type_allocator<u64, S> z(y);
  bool e = x == y; if (e) vc_reach("equal"); else vc_reach("different");
  vc_check(e == (x.get_allocator() == y.get_allocator()), "A13: typed allocators are equal when what they wrap is"); vc_check((x != y) == !e, "A13: != is the negation of =="); vc_check((y == x) == e, "A13: equality is symmetric");
  vc_check((x == z) == e && (z == x) == e && (x != z) == !e, "A13: equality disregards the element type"); vc_check(x == x && !(x != x), "A13: equality is reflexive");
}
// ------------------------------------------------------------------ forwarding wrappers: W gives access to a wrapper and says which part must be reached
struct Ref { u64 id; S a; ktl::reference<S> x; Ref() : id(newid("id")), a(id), x(a) {} ktl::reference<S>& get() { return x; } };
struct Glo { u64 id; ktl::global<S9> x, other; Glo() : id(newid("id")) { other.get_allocator().id = id; } ktl::global<S9>& get() { return x; } };
struct Thr { u64 id; ktl::threaded<S> x; Thr() : id(newid("id")), x(id) { } ktl::threaded<S>& get() { return x; } };
struct Flw { u64 id; ktl::freelist<0, 64, S> x; Flw() : id(newid("id")), x(S(id)) {} ktl::freelist<0, 64, S>& get() { return x; } };
#define IS_THR (std::is_same_v<W, Thr>)
#define O (IS_THR ? 1 : 0)
#define CNT(n) (IS_THR ? (n) + 2 : (n))
// the lock's contract
extern "C" {
int vc_model_pthread_mutex_lock(void* m) { vc_check(vc_gget("held", adr(m)) == 0, "A11: a lock that is held is not taken again"); vc_gset("held", adr(m), 1); vc_log(EV_LOCK, adr(m), 0, 0, 0); return 0; }
int vc_model_pthread_mutex_trylock(void* m) { if (vc_fork(vc_any("lock_is_busy") != 0)) return 16; vc_check(vc_gget("held", adr(m)) == 0, "A11: a lock that is held is not taken again"); vc_gset("held", adr(m), 1); vc_log(EV_LOCK, adr(m), 0, 0, 0); return 0; }
int vc_model_pthread_mutex_unlock(void* m) { vc_check(vc_gget("held", adr(m)) == 1, "A11: only a lock that is held is released"); vc_gset("held", adr(m), 0); vc_log(EV_UNLOCK, adr(m), 0, 0, 0); return 0; }
// a lock taken for reading does not keep other readers out
int vc_model_pthread_rwlock_rdlock(void* m) { return 0; }
int vc_model_pthread_rwlock_tryrdlock(void* m) { return 0; }
int vc_model_pthread_rwlock_wrlock(void* m) { return vc_model_pthread_mutex_lock(m); }
int vc_model_pthread_rwlock_unlock(void* m) { if (vc_gget("held", adr(m)) == 0) return 0; return vc_model_pthread_mutex_unlock(m); }
}
static void world() { vc_world(); vc_gzero("held", 0); }
static bool locked_once(u64 m) { return log_n() == 3 && log_k(0) == EV_LOCK && log_k(2) == EV_UNLOCK && log_i(0) == log_i(2) && (m == 0 || m == log_i(0)) && vc_gget("held", log_i(0)) == 0; }
template<class W> static void w_alloc() {
  world(); W w; u64 n = vc_any("n"); log_reset();
  u64 p = adr(w.get().allocate(n));
  if constexpr (IS_THR) { vc_check(log_n() == 3, "A11,A12: one request to the wrapped allocator, under one lock"); if (log_n() != 3) vc_dead();
    vc_check(locked_once(0), "A11: the lock is taken before the wrapped allocator is touched, held throughout and released"); }
  else { vc_check(log_n() == 1, "A12: exactly one request reaches the wrapped allocator"); if (log_n() != 1) vc_dead(); }
  vc_check(log_is(O, EV_ALLOC, w.id, n, 0), "A03,A11,A12: the request reaches the wrapped allocator unchanged");
  vc_check(p == log_r(O), "A03,A11,A12: the answer is returned unchanged");
  if (p) vc_reach("served"); else { vc_reach("refused"); vc_dead(); }
  u64 m = log_i(0); log_reset();
  w.get().deallocate((void*)p, n); vc_reach("returned");
  if constexpr (IS_THR) { vc_check(locked_once(m), "A11: the same lock guards deallocation"); if (log_n() != 3) vc_dead(); }
  else { vc_check(log_n() == 1, "A12: exactly one request reaches the wrapped allocator"); if (log_n() != 1) vc_dead(); }
  vc_check(log_is(O, EV_DEALLOC, w.id, p, n), "A11,A12: the block goes back unchanged"); vc_dead();
}
// deallocating an arbitrary live block, in an arbitrary state
template<class W> static void w_dealloc() {
  world(); W w; u64 n = vc_any("n"); u64 p = vc_someblock("p", w.id, n); log_reset();
  w.get().deallocate((void*)p, n); vc_reach("returned");
  if constexpr (IS_THR) { vc_check(locked_once(0), "A11: deallocation holds the lock throughout and releases it"); if (log_n() != 3) vc_dead(); }
  else { vc_check(log_n() == 1, "A12: exactly one request reaches the wrapped allocator"); if (log_n() != 1) vc_dead(); }
  vc_check(log_is(O, EV_DEALLOC, w.id, p, n), "A11,A12: the block goes back unchanged");
  vc_dead();
}
template<class W> static void w_cons() {
  world(); W w; u64 p = vc_someblock("p", w.id, sizeof(Obj)), v = vc_any("v"); log_reset();
  w.get().construct((Obj*)p, v); vc_reach("constructed");
  u64 a = ite(log_k(0) == EV_LOCK, 1, 0);
  vc_check(log_n() == 2 + 2 * a && log_is(a, EV_CONS, w.id, p, 1) && log_is(a + 1, EV_TCTOR, 0, p, v), "A12: construction reaches the wrapped allocator exactly once");
  log_reset(); w.get().destroy((Obj*)p); a = ite(log_k(0) == EV_LOCK, 1, 0);
  vc_check(log_n() == 2 + 2 * a && log_is(a, EV_DEST, w.id, p, 0) && log_is(a + 1, EV_TDTOR, 0, p, 0), "A12: destruction reaches the wrapped allocator exactly once"); vc_dead();
}
template<class W> static void w_owns() {
  world(); W w; u64 p = vc_any("p"); log_reset();
  bool r = w.get().owns((void*)p); vc_reach("asked");
  vc_check(r == oa_owns(w.id, p), "A04,A12: owns answers as the wrapped allocator");
  vc_check(w.get().max_size() == vc_fun1("max_size", w.id), "A12: max_size answers as the wrapped allocator");
  vc_check(w.get().get_allocator().id == w.id && ((const decltype(w.x)&)w.get()).get_allocator().id == w.id, "A12: get_allocator gives the wrapped allocator");
}
#define W(P, T) H(P##_alloc) { w_alloc<T>(); } H(P##_dealloc) { w_dealloc<T>(); } H(P##_cons) { w_cons<T>(); } H(P##_owns) { w_owns<T>(); }
W(re, Ref) W(gl, Glo) W(th, Thr)
H(fl_cons) { w_cons<Flw>(); }
H(fl_owns) { w_owns<Flw>(); }
// ------------------------------------------------------------------ reference
H(re_copies) {
  vc_world(); S a(newid("a")), b(newid("b")); ktl::reference<S> x(a), y(x), z(std::move(x)), v(b), t(b), o(b); v = y; t = std::move(z);
  vc_reach("copies");
  vc_check(&x.get_allocator() == &a && &y.get_allocator() == &a && &z.get_allocator() == &a && &v.get_allocator() == &a && &t.get_allocator() == &a, "A12: copies of a reference refer to the same allocator");
  vc_check(y == z && v == y && t == x && !(y != z) && !(v != y) && x == x, "A13: references to one allocator are equal");
  bool e = y == o; vc_check((o == y) == e && (y != o) == !e && (o != y) == !e, "A13: equality is symmetric and != its negation");
  vc_check(imp(e, a == b), "A13: equal references can free each other's blocks");
  v.get_allocator().id = 5; vc_check(a.id == 5, "A12: a reference does not copy the allocator");
}
H(re_refs) { // references to arbitrary, possibly equal, allocators
  vc_world(); S a(newid("a")), b(newid("b")); ktl::reference<S> x(a), o(b);
  bool e = x == o; if (a == b) vc_reach("equal allocators"); else vc_reach("different allocators");
  vc_check(imp(e, a == b), "A13: equal references can free each other's blocks"); vc_check((x != o) == !e, "A13: != is the negation of ==");
}
// ------------------------------------------------------------------ global
H(gl_copies) {
  vc_world(); ktl::global<S9> x, y(x), z(std::move(y)), v; u64 id = newid("id"); v.set_allocator([&] { S9 s; s.id = id; return s; }()); vc_reach("copies");
  vc_check(x.get_allocator().id == id && y.get_allocator().id == id && z.get_allocator().id == id && &x.get_allocator() == &v.get_allocator(), "A12: all global allocators of a type are the static one");
  x = y; z = std::move(v); vc_check(x.get_allocator().id == id && z.get_allocator().id == id, "A12: assignment keeps the static allocator");
  vc_check(x == y && !(x != y) && z == v && !(z != v) && x == x, "A13: global allocators of a type are equal");
}
// ------------------------------------------------------------------ threaded
H(th_two) { // each allocator has a lock of its own
  world(); Thr a, b; log_reset(); a.x.allocate(8); u64 m = log_i(0); log_reset(); b.x.allocate(8);
  vc_reach("two"); vc_check(log_i(0) != m, "A11: every threaded allocator has its own lock"); vc_dead();
}
H(th_args) { world(); u64 id = newid("id"); ktl::threaded<S> x(id); ktl::threaded<S9> y; vc_reach("constructed"); vc_check(x.get_allocator().id == id, "A12: constructor arguments reach the wrapped allocator"); vc_check(y.get_allocator().id == 9, "A12: the wrapped allocator is default constructed");
  ktl::threaded<S> z(newid("other")); bool e = x == z; vc_check(e == (x.get_allocator() == z.get_allocator()) && (z == x) == e && (x != z) == !e && x == x, "A13: threaded allocators are equal when what they wrap is"); }
// ------------------------------------------------------------------ freelist, null, system allocator: equality
H(fl_eq) {
  world(); Flw a, b; vc_term(T_PTR, vc_any("h1")); 
  a.x.m_Free = (decltype(a.x.m_Free))vc_any("h1"); b.x.m_Free = (decltype(b.x.m_Free))vc_any("h2");
  bool e = a.x == b.x; if (e) vc_reach("equal"); else vc_reach("different");
  vc_check((b.x == a.x) == e, "A13: equality is symmetric"); vc_check((a.x != b.x) == !e, "A13: != is the negation of =="); vc_check(a.x == a.x && !(a.x != a.x), "A13: equality is reflexive");
  vc_check(imp(e, a.x.get_allocator() == b.x.get_allocator()), "A13: equal freelists can free each other's blocks");
  a.x.m_Free = nullptr; b.x.m_Free = nullptr;
}
H(nu_all) {
  vc_world(); ktl::null_allocator x, y(x); u64 n = vc_any("n"), p = vc_any("p"); vc_reach("null allocator");
  vc_check(x.allocate(n) == nullptr, "A03: the null allocator refuses every request"); vc_check(x.owns((void*)p) == (p == 0), "A04: the null allocator owns no memory");
  x.deallocate(nullptr, n); vc_check(x == y && !(x != y) && x == x, "A13: null allocators are equal");
}
extern "C" void* vc_model_malloc(size_t n) { if (vc_fork(vc_any("malloc_fails") != 0)) { vc_log(EV_SYSALLOC, 0, n, 0, 0); return nullptr; } u64 p = vc_newblock(70000, n); vc_log(EV_SYSALLOC, 0, n, 0, p); return (void*)p; }
extern "C" void vc_model_free(void* p) { vc_term(T_PTR, adr(p)); vc_check(p == nullptr || (live(adr(p)) != 0 && owner(adr(p)) == 70000), "U01,A03: memory given back to the system is live and came from it"); if (p) vc_gset("live", adr(p), 0); vc_log(EV_SYSFREE, 0, adr(p), 0, 0); }
H(ma_all) {
  vc_world(); ktl::mallocator x, y; u64 n = vc_any("n"); log_reset(); u64 p = adr(x.allocate(n));
  vc_check(x == y && !(x != y), "A13: system allocators are equal");
  if (p == 0) { vc_reach("refused"); vc_dead(); }
  vc_reach("served"); vc_check(live(p) != 0 && bsize(p) >= n && (p & 15) == 0, "A03,U01: a block is at least as large as asked for and aligned");
  log_reset(); y.deallocate((void*)p, n); vc_check(log_n() == 1 && log_is(0, EV_SYSFREE, 0, p, 0), "A13,U01: any system allocator gives the block back exactly once"); vc_dead();
}
