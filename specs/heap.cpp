// C05, C06, C02, C07 for binary_heap
// Elements are told apart by a tag (v); an object is alive between its construction and its destruction (ghost map "alive" for the heap, a mark for locals).
// The comparison orders values by an arbitrary key; equality is an arbitrary symmetric relation.
#define SZ 16
#define CELL 8
#include "opaque.h"
#include "ktl/containers/binary_heap.h"
#define MAGIC 0x517a11feull
VCI u64 alive(u64 a) { return vc_gget("alive", a); }
VCI u64 lb() { return vc_gget("lastblock", 0); }
VCI u64 key(u64 id, u64 v) { return vc_fun2("key", id, v); }
VCI bool same(u64 a, u64 b) { return vc_fun2("same", ite(a < b, a, b), ite(a < b, b, a)) != 0; }
VCI u64 par(u64 i) { return (i - 1) >> 1; }
VCI u64 ob(int i) { return vc_gget("oldblock", i); }
static void touch(u64 a) { vc_term(T_ADDR, a); vc_term_div(T_IDX, a - lb(), SZ); if (vc_gget("heaps", 0) > 0) vc_term_div(T_IDX, a - ob(0), SZ); if (vc_gget("heaps", 0) > 1) vc_term_div(T_IDX, a - ob(1), SZ); }
struct El {
  u64 v; u64 m;
  static void use(const El* p, const char* what) { if (vc_islocal(adr(p))) vc_check(p->m == MAGIC, what); else { touch(adr(p)); vc_check(alive(adr(p)) == 1, what); } }
  void begin() { if (vc_islocal(adr(this))) m = MAGIC; else { u64 a = adr(this); touch(a); vc_check((a & 15) == 0, "C06: objects are constructed where elements belong"); vc_check(alive(a) == 0, "C06: an object is constructed only where there is none"); vc_gset("alive", a, 1); vc_gset("newest", 0, v); place(); } }
  void place() { if (!vc_islocal(adr(this))) vc_gset("pos", v, adr(this)); }
  explicit El(u64 x, int) noexcept : v(x) { begin(); }
  El(const El& o) noexcept { use(&o, "C06: only objects that are alive are read"); v = o.v; begin(); }
  El(El&& o) noexcept { use(&o, "C06: only objects that are alive are read"); v = o.v; begin(); o.v = vc_any("moved_from"); }
  El& operator=(const El& o) noexcept { use(&o, "C06: only objects that are alive are read"); use(this, "C06: only objects that are alive are assigned to"); v = o.v; place(); return *this; }
  El& operator=(El&& o) noexcept { use(&o, "C06: only objects that are alive are read"); use(this, "C06: only objects that are alive are assigned to"); u64 x = o.v; o.v = vc_any("moved_from"); v = x; place(); return *this; }
  ~El() { use(this, "C06: only objects that are alive are destroyed"); if (vc_islocal(adr(this))) m = 0; else vc_gset("alive", adr(this), 0); }
  bool operator==(const El& o) const noexcept { use(this, "C06: only objects that are alive are compared"); use(&o, "C06: only objects that are alive are compared"); return same(v, o.v); }
  bool operator!=(const El& o) const noexcept { return !(*this == o); }
};
struct Cmp { u64 id;
  Cmp() noexcept { id = vc_any("default_comparison"); }
  explicit Cmp(u64 i) noexcept : id(i) {}
  bool operator()(const El& a, const El& b) const noexcept { El::use(&a, "C06: only objects that are alive are compared"); El::use(&b, "C06: only objects that are alive are compared"); return key(id, a.v) < key(id, b.v); }
};
template<class T> struct HA {
  typedef T value_type; u64 id;
  HA() noexcept { id = vc_any("default_id"); vc_assume(id < 65536); }
  explicit HA(u64 i) noexcept : id(i) {}
  bool operator==(const HA& r) const noexcept { return id == r.id; }
  bool operator!=(const HA& r) const noexcept { return id != r.id; }
  T* allocate(size_t n) noexcept {
    if (n == 0 && vc_fork(vc_any("null_for_zero") != 0)) return nullptr;
    vc_assume(n <= HEAP_HI / sizeof(T));
    u64 p = vc_newblock(id, n * sizeof(T)); vc_gset("nalloc", 0, vc_gget("nalloc", 0) + 1); vc_gset("lastblock", 0, p); vc_gset("lastsize", 0, n * sizeof(T)); vc_gfill("alive", p, n * sizeof(T), 0); return (T*)p; }
  void deallocate(T* p, size_t n) noexcept {
    u64 b = adr(p); vc_term(T_PTR, b);
    vc_check(live(b) != 0, "C02: storage is returned only while it is held"); vc_check(owner(b) == id, "C02: storage goes back to the allocator it came from"); u64 sz = bsize(b); vc_check(sz == n * sizeof(T), "C02: storage goes back with the element count it was obtained with");
    vc_check_all(T_ADDR, "C06: storage is returned only after the objects in it are destroyed", [=](u64 a) { vc_term_div(T_IDX, a - b, SZ); return imp((a >= b) & (a - b < sz) & (((a - b) & 15) == 0), alive(a) == 0); });
    vc_gset("live", b, 0); vc_gset("nfree", 0, vc_gget("nfree", 0) + 1); }
};
typedef ktl::binary_heap<El, Cmp, HA<El>> B;
static u64 cmp_of(const B& x) { return x.m_Comp.id; }
static u64 alloc_of(const B& x) { return x.m_Alloc.id; }
static u64 newid(const char* s) { u64 id = vc_any(s); vc_assume(id < 65536); return id; }
static void world() { vc_world(CELL); vc_gzero("nalloc", 0); vc_gzero("nfree", 0); vc_gzero("lastblock", 0); vc_gzero("lastsize", 0); vc_gzero("alive", 0); vc_gzero("oldblock", 0); vc_gzero("newest", 0); vc_gzero("heaps", 0); vc_gmap("pos"); vc_gmap("idx"); }
static u64 held() { return vc_gget("nalloc", 0) - vc_gget("nfree", 0); }
VCI u64 at(u64 s, u64 b, u64 k) { return vc_hload_at(s, b + k * SZ); }
VCI u64 now(u64 b, u64 k) { return vc_hload(b + k * SZ); }
// ---- every reachable state: storage of any capacity (or none), n elements alive in heap order
struct Box { alignas(B) char m[sizeof(B)]; B& v() { return *(B*)m; } };
static void build(B* x, u64 id, u64 cid, u64 c, u64 n, bool tags) {
  HA<El> al(id); Cmp cmp(cid);
  if (!vc_fork(vc_any("has_storage") != 0)) { vc_assume(c == 0); new (x) B(al, cmp); } else { new (x) B((size_t)c, al, cmp); x->m_Size = n; }
  u64 b = adr(x->data()); vc_term(T_PTR, b); vc_gset("oldblock", 1, ob(0)); vc_gset("oldblock", 0, b); vc_gset("heaps", 0, vc_gget("heaps", 0) + 1); vc_gfill("alive", b, n * SZ, 1);
  vc_assume_all(T_IDX, [=](u64 i) { return imp((i >= 1) & (i < n), key(cid, now(b, i)) >= key(cid, now(b, par(i)))); });
  if (tags) vc_assume_all(T_IDX, [=](u64 i) { return imp(i < n, (vc_gget("idx", now(b, i)) == i) & (vc_gget("pos", now(b, i)) == b + i * SZ)); });
}
#define MAKE(x, id, cid, b, n, c) MAKE_(x, id, cid, b, n, c, true)
#define MAKE_(x, id, cid, b, n, c, tags) u64 id = newid("id"), cid = vc_any("comparison"), c = vc_any("capacity"), n = vc_any("size"); vc_assume(n <= c); vc_assume(c < HEAP_HI); Box box_##x; build(&box_##x.v(), id, cid, c, n, tags); B& x = box_##x.v(); u64 b = adr(x.data())
// ---- postconditions
static void wf(const B& x, u64 id) {
  u64 d = adr(x.data()), n = x.size(), c = x.capacity(); vc_term(T_PTR, d);
  vc_check(n <= c, "C02: capacity is at least the size"); vc_check(adr(x.begin()) == d && adr(x.end()) == d + n * SZ && x.empty() == (n == 0), "C05: iterators span the elements");
  vc_check(adr(x.rbegin().base()) == d + n * SZ && adr(x.rend().base()) == d, "C05: reverse iterators span the elements");
  if (d == 0) vc_check(c == 0, "C02: without storage there is no capacity"); else vc_check(live(d) != 0 && bsize(d) == c * SZ && owner(d) == id, "C02: the storage has the capacity and belongs to the allocator");
  vc_check_all(T_IDX, "C06: exactly the elements held are alive", [=](u64 k) { vc_term(T_ADDR, d + k * SZ); return imp((k < c) & (c < HEAP_HI), alive(d + k * SZ) == (k < n)); });
}
static void ordered(const B& x) { u64 d = adr(x.data()), n = x.size(), cid = cmp_of(x);
  vc_check_all(T_IDX, "C05: no element precedes its parent", [=](u64 i) { vc_term(T_IDX, par(i)); return imp((i >= 1) & (i < n), key(cid, now(d, i)) >= key(cid, now(d, par(i)))); }); }
// destroying it leaves nothing behind
static void inv_destroy(u64 b, u64 n) {
  vc_inv([=](u64 it) { u64 e = vc_entry();
    vc_claim_all(T_IDX, [=](u64 k) { return imp((k < it) & (it < HEAP_HI), alive(b + k * SZ) == 0); });
    vc_claim_all(T_IDX, [=](u64 k) { return imp((k < n) & (it <= n) & (k >= n - it), alive(b + k * SZ) == 0); });
    vc_claim_all(T_ADDR, [=](u64 a) { vc_term_div(T_IDX, a - b, SZ); return imp((it < HEAP_HI) & ((a < b) | (a - b >= it * SZ)), alive(a) == vc_gget_at(e, "alive", a)); });
    vc_claim_all(T_ADDR, [=](u64 a) { vc_term_div(T_IDX, a - b, SZ); return imp((it <= n) & ((a < b + (n - it) * SZ) | (a - b >= n * SZ)), alive(a) == vc_gget_at(e, "alive", a)); });
  });
}
static void kill(B& x) { vc_inv_clear(); inv_destroy(adr(x.data()), x.size()); x.~B(); vc_inv_clear(); }
static void finish(B& x, u64 id) { wf(x, id); kill(x); vc_check(held() == 0, "C02: every storage block is returned exactly once"); vc_dead(); }
// the heap is well formed again; h_dtor shows that every such heap is destroyed completely
static void done(B& x, u64 id) { wf(x, id); vc_check(held() == (x.data() != nullptr), "C02: every storage block is returned exactly once"); vc_dead(); }
#define BOTH(x, xid, y, yid) wf(x, xid); wf(y, yid); kill(x); wf(y, yid); kill(y); vc_check(held() == 0, "C02: every storage block is returned exactly once"); vc_dead()

H(h_dtor) { world(); MAKE(x, id, cid, b, n, c); vc_reach("destroyed"); ordered(x); finish(x, id); }
H(h_clear) { world(); MAKE(x, id, cid, b, n, c); inv_destroy(b, n); x.clear(); vc_reach("cleared"); vc_check(x.size() == 0 && x.empty(), "C05: a cleared heap is empty"); vc_check(x.capacity() == c && adr(x.data()) == b, "C05: clearing keeps the storage"); finish(x, id); }
// ---- moving and copying elements from one block (b, n elements, as it was in s) to the newest
static void inv_transfer(u64 s, u64 b, u64 n) {
  vc_inv([=](u64 it) { u64 e = vc_entry(), d = lb(), dn = vc_gget("lastsize", 0);
    vc_claim_all(T_IDX, [=](u64 k) { vc_term(T_ADDR, d + k * SZ); return imp((k < it) & (it < HEAP_HI), (now(d, k) == at(s, b, k)) & (alive(d + k * SZ) == 1)); });
    vc_claim_all(T_IDX, [=](u64 k) { return imp((k >= it) & (k < n), vc_gget("pos", at(s, b, k)) == b + k * SZ); });
    vc_claim_all(T_IDX, [=](u64 k) { return imp((k < it) & (it < HEAP_HI), vc_gget("pos", at(s, b, k)) == d + k * SZ); });
    vc_claim_all(T_IDX, [=](u64 k) { vc_term(T_ADDR, b + k * SZ); return imp((k >= it) & (k < n), (now(b, k) == at(s, b, k)) & (alive(b + k * SZ) == 1)); });
    vc_claim_all(T_IDX, [=](u64 k) { return imp((k < it) & (it < HEAP_HI), alive(b + k * SZ) == 0); });
    vc_claim_all(T_IDX, [=](u64 k) { vc_term(T_ADDR, b + k * SZ); return imp((k < it) & (it < HEAP_HI), alive(b + k * SZ) == 1); });
    vc_claim_all(T_IDX, [=](u64 k) { return imp((k < it) & (it < HEAP_HI), now(b, k) == at(s, b, k)); });
    vc_claim_all(T_ADDR, [=](u64 a) { vc_term_div(T_IDX, a - b, SZ); return imp((it < HEAP_HI) & ((a < d) | (a - d >= it * SZ)) & ((a < b) | (a - b >= n * SZ)), alive(a) == vc_gget_at(e, "alive", a)); });
    vc_claim_all(T_ADDR, [=](u64 a) { return imp(((a < d) | (a - d >= dn)) & ((a < b) | (a - b >= n * SZ)), vc_hload(a) == vc_hload_at(e, a)); });
  });
}
// ---- percolation: q is the position being filled with t
static void inv_percolate(u64 s, u64 b, u64 n_, u64 t_, u64 m_, u64 lo, u64 cid, bool newest = false) {
  vc_inv_var([=](u64 it, u64 q) { u64 d = lb(), t = newest ? vc_gget("newest", 0) : t_, n = newest ? vc_gget("idx", t) : n_, m = newest ? n + 1 : m_;
    vc_claim(q < m); vc_claim(it + q <= m); vc_claim(it <= q);
    vc_claim_all(T_IDX, [=](u64 i) { u64 v = now(d, i), j = vc_gget("idx", v); vc_term(T_IDX, j); return imp((i < m) & (i != q), (vc_gget("pos", v) == d + i * SZ) & (j >= lo) & (j < n) & (at(s, b, j) == v) & (v != t)); });
    vc_claim(now(d, q) == t); vc_claim(vc_gget("pos", t) == d + q * SZ);
    vc_claim_all(T_IDX, [=](u64 i) { vc_term(T_IDX, par(i)); return imp((i >= 1) & (i < m) & (i != q) & (par(i) != q), key(cid, now(d, i)) >= key(cid, now(d, par(i)))); });
    vc_claim(imp(q != 0, key(cid, t) >= key(cid, now(d, par(q)))));
    vc_claim_all(T_IDX, [=](u64 i) { vc_term(T_IDX, par(par(i))); return imp((i >= 1) & (i < m) & (par(i) == q) & (q != 0), key(cid, now(d, i)) >= key(cid, now(d, par(q)))); });
    vc_claim_all(T_IDX, [=](u64 i) { return imp((i >= 1) & (i < m) & (par(i) == q), key(cid, now(d, i)) >= key(cid, t)); });
  });
  vc_inv([=](u64 it) { u64 e = vc_entry(), d = lb(), m = newest ? vc_gget("idx", vc_gget("newest", 0)) + 1 : m_; vc_claim_all(T_ADDR, [=](u64 a) { return imp((a < d) | (a - d >= m * SZ), vc_hload(a) == vc_hload_at(e, a)); }); });
}
// the slots of x hold distinct values, each of them old[lo..n) or t: by counting, exactly those
static void permuted(const B& x, u64 s, u64 b, u64 lo, u64 n, u64 t, bool with_t) { u64 d = adr(x.data()), m = x.size();
  vc_check(m == n - lo + with_t, "C05: no element is lost or invented");
  vc_check_all(T_IDX, "C05: every element is one of those put in and not yet taken out", [=](u64 i) { u64 v = now(d, i), j = vc_gget("idx", v); vc_term(T_IDX, j); return imp(i < m, (vc_gget("pos", v) == d + i * SZ) & (((j >= lo) & (j < n) & (at(s, b, j) == v)) | (with_t & (v == t)))); }); }
#define INSERT(name, arg, cond) H(h_insert_##name) { world(); MAKE(x, id, cid, b, n, c); vc_assume(cond); u64 t = vc_any("inserted"); vc_assume(vc_gget("idx", t) == n); El e(t, 0); u64 s = vc_snap(); \
  inv_transfer(s, b, n); inv_destroy(b, n); inv_percolate(s, b, n, t, n + 1, 0, cid); El* r = x.insert(arg); vc_inv_clear(); vc_reach("inserted"); \
  u64 d = adr(x.data()), k = (adr(r) - d) / SZ; vc_term(T_IDX, k); vc_check(adr(r) == d + k * SZ && k <= n && now(d, k) == t, "C05: the position of the new element is returned"); \
  permuted(x, s, b, 0, n, t, true); ordered(x); vc_check(x.capacity() >= n + 1 && cmp_of(x) == cid && alloc_of(x) == id, "C05: the heap keeps its comparison and its allocator"); \
  if (n < c) { vc_check(d == b && x.capacity() == c, "C05: nothing is moved while there is room"); vc_check_all(T_ADDR, "C06: nothing but the storage of the heap changes", [=](u64 a) { return imp((a < b) | (a - b >= (n + 1) * SZ), (vc_hload(a) == vc_hload_at(s, a)) & (alive(a) == vc_gget_at(s, "alive", a))); }); } done(x, id); }
#define INSERTS(name, arg) INSERT(name##_room, arg, n < c) INSERT(name##_full, arg, n == c && b != 0) INSERT(name##_first, arg, b == 0)
INSERTS(copy, (const El&)e)
INSERTS(move, std::move(e))
// an element of its own: order, size and value
#define INSERT_OWN(name, cond) H(h_insert_own_##name) { world(); MAKE(x, id, cid, b, n, c); vc_assume(cond); u64 i = vc_any("own_index"); vc_assume(i < n); u64 s = vc_snap(), t = at(s, b, i); vc_term(T_IDX, i); \
  inv_transfer(s, b, n); inv_destroy(b, n); inv_percolate(s, b, n, t, n + 1, 0, cid); El* r = x.insert((const El&)x.begin()[i]); vc_inv_clear(); vc_reach("inserted"); \
  u64 d = adr(x.data()), k = (adr(r) - d) / SZ; vc_term(T_IDX, k); vc_check(adr(r) == d + k * SZ && k <= n && now(d, k) == t, "C05: the position of the new element is returned"); \
  vc_check(x.size() == n + 1, "C05: no element is lost or invented"); ordered(x); done(x, id); }
INSERT_OWN(room, n < c) INSERT_OWN(full, n == c)
// ---- the root: no element precedes it. Induction over the position (h_root is the step), then used as a lemma
H(h_root) { world(); MAKE(x, id, cid, b, n, c); u64 i = vc_any("i"); vc_assume(i >= 1); vc_assume(i < n); vc_term(T_IDX, i); vc_term(T_IDX, par(i));
  vc_assume_all(T_IDX, [=](u64 j) { return imp(j < i, key(cid, now(b, j)) >= key(cid, now(b, 0))); }); vc_reach("step"); vc_check(key(cid, now(b, i)) >= key(cid, now(b, 0)), "C05: no element precedes the first (induction step)"); vc_dead(); }
static void lemma_root(u64 b, u64 n, u64 cid) { vc_assume_all(T_IDX, [=](u64 j) { return imp(j < n, key(cid, now(b, j)) >= key(cid, now(b, 0))); }); }
static void unchanged(const B& x, u64 s, u64 b, u64 n, u64 c) { vc_check(x.size() == n && x.capacity() == c && adr(x.data()) == b, "C05: the heap is unchanged"); vc_check_all(T_IDX, "C05: the elements are unchanged", [=](u64 k) { return imp(k < n, now(b, k) == at(s, b, k)); }); }
H(h_peek) { world(); MAKE(x, id, cid, b, n, c); vc_assume(n > 0); vc_term(T_IDX, 0); lemma_root(b, n, cid); u64 s = vc_snap(); El& e = x.peek(); vc_reach("peeked"); u64 v = vc_hload(adr(&e));
  vc_check(adr(&e) == b, "C05: the first element is offered"); vc_check_all(T_IDX, "C05: no element precedes the one offered", [=](u64 i) { return imp(i < n, key(cid, at(s, b, i)) >= key(cid, v)); }); unchanged(x, s, b, n, c); ordered(x); done(x, id); }
#define POP(name, cond) H(h_pop_##name) { world(); MAKE(x, id, cid, b, n, c); vc_assume(cond); vc_term(T_IDX, 0); vc_term(T_IDX, n - 1); lemma_root(b, n, cid); u64 s = vc_snap(), t = at(s, b, n - 1); \
  inv_percolate(s, b, n, t, n - 1, 1, cid); El r = x.pop(); vc_inv_clear(); vc_reach("popped"); u64 v = r.v; El::use(&r, "C06: only objects that are alive are read"); \
  vc_check(v == at(s, b, 0), "C05: the first element is returned"); vc_check_all(T_IDX, "C05: no element precedes the one returned", [=](u64 i) { return imp(i < n, key(cid, at(s, b, i)) >= key(cid, v)); }); \
  permuted(x, s, b, 1, n, t, false); ordered(x); done(x, id); }
POP(last, n == 1) POP(many, n > 1)
static void inv_find(u64 s, u64 b, u64 n, u64 w) {
  vc_inv_var([=](u64 it, u64 q) { vc_claim_all(T_IDX, [=](u64 j) { return imp((j < q) & (j < n), !same(at(s, b, j), w)); }); });
  vc_inv_var([=](u64 it, u64 p) { vc_claim_all(T_IDX, [=](u64 j) { return imp((b + j * SZ < p) & (j < n), !same(at(s, b, j), w)); }); vc_claim(((p - b) & (SZ - 1)) == 0); vc_claim((p >= b) & (p <= b + n * SZ)); });
}
H(h_find) { world(); MAKE(x, id, cid, b, n, c); u64 w = vc_any("searched"); El e(w, 0); u64 s = vc_snap(); inv_find(s, b, n, w); El* r = ((const B&)x).find((const El&)e); vc_inv_clear();
  if (adr(r) == b + n * SZ) { vc_reach("absent"); vc_check_all(T_IDX, "C05: nothing is found only if nothing matches", [=](u64 j) { return imp(j < n, !same(at(s, b, j), w)); }); }
  else { vc_reach("found"); u64 k = (adr(r) - b) / SZ; vc_term(T_IDX, k); vc_check(adr(r) == b + k * SZ && k < n && same(at(s, b, k), w), "C05: what is found matches"); } unchanged(x, s, b, n, c); done(x, id); }
// ---- capacity
#define KEPT(x, b, n, what) vc_check(x.size() == n, what); { u64 d = adr(x.data()); vc_check_all(T_IDX, what, [=](u64 k) { return imp(k < n, now(d, k) == at(s, b, k)); }); }
#define RESERVE(name, cond) H(h_reserve_##name) { world(); MAKE(x, id, cid, b, n, c); u64 m = vc_any("m"); vc_assume(cond); u64 s = vc_snap(); inv_transfer(s, b, n); inv_destroy(b, n); x.reserve(m); vc_inv_clear(); vc_reach("reserved"); \
  vc_check(x.capacity() >= m && x.capacity() >= c, "C05: the capacity asked for is there"); KEPT(x, b, n, "C05: reserving keeps the elements"); ordered(x); done(x, id); }
RESERVE(room, m <= c) RESERVE(more, m > c && b != 0) RESERVE(first, m > c && b == 0)
// ---- construction
#define EMPTY_NEW(x, id, cid) vc_reach("constructed"); vc_check(x.size() == 0 && x.empty(), "C05: a new heap is empty"); vc_check(cmp_of(x) == cid, "C05: the heap uses the comparison it was given"); done(x, id)
H(h_ctor_default) { world(); Box bx; B& x = *new (bx.m) B(); EMPTY_NEW(x, alloc_of(x), cmp_of(x)); }
H(h_ctor_comp) { world(); u64 cid = vc_any("comparison"); Cmp cmp(cid); Box bx; B& x = *new (bx.m) B(cmp); EMPTY_NEW(x, alloc_of(x), cid); }
H(h_ctor_alloc) { world(); u64 cid = vc_any("comparison"), id = newid("id"); Cmp cmp(cid); HA<El> a(id); Box bx; B& x = *new (bx.m) B(a, cmp); EMPTY_NEW(x, id, cid); }
H(h_ctor_n) { world(); u64 cid = vc_any("comparison"), n = vc_any("n"); Cmp cmp(cid); Box bx; B& x = *new (bx.m) B((size_t)n, cmp); vc_check(x.capacity() >= n, "C05: the capacity asked for is there"); EMPTY_NEW(x, alloc_of(x), cid); }
H(h_ctor_n_alloc) { world(); u64 cid = vc_any("comparison"), id = newid("id"), n = vc_any("n"); Cmp cmp(cid); HA<El> a(id); Box bx; B& x = *new (bx.m) B((size_t)n, a, cmp); vc_check(x.capacity() >= n, "C05: the capacity asked for is there"); EMPTY_NEW(x, id, cid); }
// ---- from a list, element by element. insert is represented by its contract, which h_insert_* establish for its body:
// given distinct values and a new one, the heap holds exactly those, is ordered, and has grown by one element
static El* insert_contract(B* x, const El* e) {
  El::use(e, "C06: only objects that are alive are read");
  u64 b = adr(x->data()), n = x->size(), c = x->capacity(), t = e->v, id = alloc_of(*x), cid = cmp_of(*x); vc_term(T_PTR, b); vc_term(T_IDX, n);
  vc_check(n <= c, "C02: capacity is at least the size"); if (b != 0) vc_check(live(b) != 0 && bsize(b) == c * SZ && owner(b) == id, "C02: the storage has the capacity and belongs to the allocator"); else vc_check(c == 0, "C02: without storage there is no capacity");
  vc_check_all(T_IDX, "C06: exactly the elements held are alive", [=](u64 k) { vc_term(T_ADDR, b + k * SZ); return imp((k < c) & (c < HEAP_HI), alive(b + k * SZ) == (k < n)); });
  vc_check_all(T_IDX, "C05: no element precedes its parent", [=](u64 i) { vc_term(T_IDX, par(i)); return imp((i >= 1) & (i < n), key(cid, now(b, i)) >= key(cid, now(b, par(i)))); });
  vc_check_all2(T_IDX, "contract of insert: the values are told apart", [=](u64 i, u64 j) { return imp((i < n) & (j < n) & (i != j), now(b, i) != now(b, j)); });
  vc_check_all(T_IDX, "contract of insert: the new value is told apart", [=](u64 i) { return imp(i < n, now(b, i) != t); });
  vc_check(n < c, "contract of insert: there is room");
  u64 s = vc_snap(), d = b;
  vc_hhavoc(d, (n + 1) * SZ); vc_gset("alive", d + n * SZ, 1); x->m_Size = n + 1; vc_gmap("prev");
  vc_assume_all(T_IDX, [=](u64 i) { return imp((i >= 1) & (i <= n), key(cid, now(d, i)) >= key(cid, now(d, par(i)))); });
  vc_assume_all(T_IDX, [=](u64 i) { u64 j = vc_gget("prev", i); return imp(i <= n, ((j < n) & (now(d, i) == at(s, b, j))) | ((j == n) & (now(d, i) == t))); });
  vc_assume_all2(T_IDX, [=](u64 i, u64 j) { return imp((i <= n) & (j <= n) & (i != j), now(d, i) != now(d, j)); });
  u64 k = vc_any("position"); vc_assume(k <= n); vc_term(T_IDX, k); vc_assume(now(d, k) == t);
  return (El*)(d + k * SZ); }
static void inv_list(B* x, u64 s, u64 b, u64 n, u64 cid) {
  vc_inv([=](u64 it) { u64 e = vc_entry(), d = lb();
    vc_claim(x->size() == it); vc_claim(x->capacity() == n); vc_claim(adr(x->data()) == d); vc_claim(imp(n > 0, d != 0)); vc_claim(cmp_of(*x) == cid); vc_claim(d == vc_gget_at(e, "lastblock", 0)); vc_claim(alloc_of(*x) == owner(d));
    vc_claim(vc_gget("nalloc", 0) == vc_gget_at(e, "nalloc", 0)); vc_claim(vc_gget("nfree", 0) == vc_gget_at(e, "nfree", 0));
    vc_claim_all(T_PTR, [=](u64 p) { return (live(p) == vc_gget_at(e, "live", p)) & (bsize(p) == vc_gget_at(e, "size", p)) & (owner(p) == vc_gget_at(e, "owner", p)); });
    vc_claim_all(T_IDX, [=](u64 k) { vc_term(T_ADDR, b + k * SZ); return imp(k < n, (alive(b + k * SZ) == 1) & (now(b, k) == at(s, b, k))); });
    vc_claim_all(T_IDX, [=](u64 k) { vc_term(T_ADDR, d + k * SZ); return imp((k < n) & (it <= n), alive(d + k * SZ) == (k < it)); });
    vc_claim_all(T_IDX, [=](u64 i) { vc_term(T_IDX, par(i)); return imp((i >= 1) & (i < it) & (it <= n), key(cid, now(d, i)) >= key(cid, now(d, par(i)))); });
    vc_claim_all(T_IDX, [=](u64 i) { vc_term(T_IDX, vc_gget("prev", i)); u64 v = now(d, i), j = vc_gget("idx", v); vc_term(T_IDX, j); return imp((i < it) & (it <= n), (j < it) & (at(s, b, j) == v)); });
    vc_claim_all2(T_IDX, [=](u64 i, u64 j) { return imp((i < it) & (j < it) & (i != j) & (it <= n), now(d, i) != now(d, j)); });
  });
}
#define LIST(name, ...) H(h_ctor_##name) { world(); vc_gmap("prev"); u64 cid = vc_any("comparison"), id = newid("id"), n = vc_any("n"); vc_assume(n < HEAP_HI / SZ); u64 b = vc_someblock("source", 70001, n * SZ); vc_gfill("alive", b, n * SZ, 1); vc_gset("oldblock", 0, b); vc_gset("heaps", 0, 1); \
  vc_assume_all(T_IDX, [=](u64 i) { return imp(i < n, vc_gget("idx", now(b, i)) == i); }); Cmp cmp(cid); HA<El> a(id); u64 s = vc_snap(); std::initializer_list<El> il((const El*)b, n); \
  vc_contract("11binary_heapI.*6insertI", insert_contract); Box bx; inv_list(&bx.v(), s, b, n, cid); B& x = *new (bx.m) B(il, __VA_ARGS__); vc_inv_clear(); vc_reach("list"); u64 d = adr(x.data()), m = x.size(); \
  vc_check(m == n, "C05: no element is lost or invented"); vc_check_all(T_IDX, "C05: every element is one of the list", [=](u64 i) { u64 v = now(d, i), j = vc_gget("idx", v); vc_term(T_IDX, j); return imp(i < m, (j < n) & (at(s, b, j) == v)); }); \
  vc_check_all2(T_IDX, "C05: every element of the list is there once", [=](u64 i, u64 j) { return imp((i < m) & (j < m) & (i != j), now(d, i) != now(d, j)); }); \
  ordered(x); vc_check(cmp_of(x) == cid, "C05: the heap uses the comparison it was given"); vc_check_all(T_IDX, "C05: the source is unchanged", [=](u64 k) { return imp(k < n, now(b, k) == at(s, b, k)); }); done(x, alloc_of(x)); }
LIST(list, cmp)
LIST(list_alloc, a, cmp)
// ---- copies and moves
#define SAME_SRC(y, yb, yn, yc, yid) vc_check(y.size() == yn && y.capacity() == yc && adr(y.data()) == yb, "C07: the source is unchanged"); KEPT(y, yb, yn, "C07: the elements of the source are unchanged"); wf(y, yid)
#define EMPTY(y) vc_check(y.size() == 0 && y.capacity() == 0 && y.data() == nullptr, "C07: the source of a move is empty")
#define IS_COPY(x, yb, yn, cid) KEPT(x, yb, yn, "C07: the copy has the elements of the source"); vc_check(adr(x.data()) != yb || yb == 0, "C07: the copy is independent of the source"); vc_check(cmp_of(x) == cid, "C05: the comparison goes along"); ordered(x)
#define TOOK(x, yb, yn, yc, cid) vc_check(adr(x.data()) == yb && x.capacity() == yc, "C07: the destination takes over the contents"); KEPT(x, yb, yn, "C07: the elements are unchanged"); vc_check(cmp_of(x) == cid, "C05: the comparison goes along"); ordered(x)
#define BLOCKS(n) vc_check(held() == (n), "C02: every storage block is returned exactly once"); vc_dead()
static u64 has(const B& x) { return x.data() != nullptr; }
#define PAIR(x, xid, y) wf(x, xid); BLOCKS(has(x) + has(y))
H(h_copy) { world(); MAKE_(y, id, cid, b, n, c, false); u64 s = vc_snap(); inv_transfer(s, b, n); Box bx; B& x = *new (bx.m) B((const B&)y); vc_inv_clear(); vc_reach("copied"); SAME_SRC(y, b, n, c, id); IS_COPY(x, b, n, cid); PAIR(x, id, y); }
H(h_copy_alloc) { world(); MAKE_(y, id, cid, b, n, c, false); u64 i2 = newid("id2"); HA<El> a(i2); u64 s = vc_snap(); inv_transfer(s, b, n); Box bx; B& x = *new (bx.m) B((const B&)y, a); vc_inv_clear(); vc_reach("copied"); SAME_SRC(y, b, n, c, id); IS_COPY(x, b, n, cid); PAIR(x, i2, y); }
H(h_move) { world(); MAKE_(y, id, cid, b, n, c, false); u64 s = vc_snap(); Box bx; B& x = *new (bx.m) B(std::move(y)); vc_reach("moved"); EMPTY(y); TOOK(x, b, n, c, cid); PAIR(x, id, y); }
H(h_move_alloc) { world(); MAKE_(y, id, cid, b, n, c, false); u64 i2 = newid("id2"); HA<El> a(i2); u64 s = vc_snap(); inv_transfer(s, b, n); Box bx; B& x = *new (bx.m) B(std::move(y), a); vc_inv_clear(); vc_reach("moved"); EMPTY(y);
  KEPT(x, b, n, "C07: the destination has the elements of the source"); vc_check(cmp_of(x) == cid, "C05: the comparison goes along"); ordered(x); PAIR(x, i2, y); }
#define TWO MAKE_(y, id, cid, b, n, c, false); MAKE_(x, i2, cid2, b2, n2, c2, false); u64 s = vc_snap()
#define COPY_ASSIGN(name, cond) H(h_copy_assign_##name) { world(); TWO; vc_assume(cond); inv_transfer(s, b, n); inv_destroy(b2, n2); B& r = (x = (const B&)y); vc_inv_clear(); vc_reach("assigned"); vc_check(&r == &x, "C07: assignment returns its target"); SAME_SRC(y, b, n, c, id); IS_COPY(x, b, n, cid); PAIR(x, alloc_of(x), y); }
COPY_ASSIGN(full, b != 0 && b2 != 0) COPY_ASSIGN(target, b == 0 && b2 != 0) COPY_ASSIGN(source, b != 0 && b2 == 0) COPY_ASSIGN(none, b == 0 && b2 == 0)
H(h_move_assign) { world(); TWO; inv_destroy(b2, n2); B& r = (x = std::move(y)); vc_inv_clear(); vc_reach("assigned"); vc_check(&r == &x, "C07: assignment returns its target"); EMPTY(y); TOOK(x, b, n, c, cid); PAIR(x, id, y); }
#define SELF(name, e) H(h_##name##_self) { world(); MAKE_(x, id, cid, b, n, c, false); u64 s = vc_snap(); inv_transfer(s, b, n); inv_destroy(b, n); x = e; vc_inv_clear(); vc_reach("assigned"); vc_check(cmp_of(x) == cid, "C05: the comparison stays"); KEPT(x, b, n, "C07: self-assignment leaves the container unchanged"); ordered(x); done(x, id); }
SELF(copy, (const B&)x) SELF(move, (B&&)x)
// a moved-from heap can be used again
H(h_reuse) { world(); MAKE(y, id, cid, b, n, c); Box bx; B& x = *new (bx.m) B(std::move(y)); u64 t = vc_any("inserted"); El e(t, 0); El* r = y.insert((const El&)e); vc_reach("reused"); vc_check(y.size() == 1 && adr(r) == adr(y.data()) && now(adr(r), 0) == t, "C07: a moved-from container is reusable"); wf(y, alloc_of(y)); wf(x, id); BLOCKS(has(x) + has(y)); }
