// A10 (and parts of A03, A12, A13): shared handles over an opaque allocator instance
#ifndef ATOMIC
#define ATOMIC 1
#endif
#include "instance.h"
#include "ktl/allocators/shared.h"
#if ATOMIC
typedef ktl::shared<CI<C_OWNS | C_MAX | C_CONS>, std::atomic> X;
#else
typedef ktl::shared<CI<C_OWNS | C_MAX | C_CONS>, ktl::notomic> X;
#endif
typedef X::block block;
#define OFF_ID offsetof(block, Allocator)
#define OFF_CNT offsetof(block, UseCount)
VCI u64 bid(u64 b) { return vc_hload(b + OFF_ID); }
VCI u64 bcnt(u64 b) { return vc_hload(b + OFF_CNT); }
// own[b]: how many handles of this thread the count stands for; delta[b]: how far this thread has moved it
#if ATOMIC
extern "C" {
// any number of other handles may come and go at any time, as long as each stands for one
void vc_atomic_before(u64 a) {
  u64 others = vc_any("handles_of_other_threads"); vc_assume(others < HEAP_HI);
  u64 b = a - OFF_CNT; bool tracked = vc_gget("tracked", b) == 1;
  vc_hstore(a, ite(tracked, vc_gget("own", b) + others, vc_hload(a)));
  vc_gset("cb", 0, vc_hload(a));
}
void vc_atomic_after(u64 a, u64 kind, u64 order) {
  u64 b = a - OFF_CNT; bool tracked = vc_gget("tracked", b) == 1;
  u64 d = vc_hload(a) - vc_gget("cb", 0);
  u64 own = vc_gget("own", b) + d;
  vc_check(imp(tracked, (d == 0) | (d == 1) | (d == ~(u64)0)), "the count moves by one handle at a time");
  vc_check(imp(tracked & (d == ~(u64)0), (order >= 2) | (vc_gget("relf", 0) == 1)), "giving up a handle publishes what was done through it");
  vc_gset("own", b, ite(tracked, own, vc_gget("own", b))); vc_gset("delta", b, vc_gget("delta", b) + d);
  vc_gset("acq", 0, ite((order == 1) | (order == 3), 1, vc_gget("acq", 0)));
  // once this thread's last handle is gone and others remain, the block may vanish at any time
  vc_gset("live", b, ite(tracked & (own == 0) & (vc_hload(a) != 0), 0, live(b)));
  vc_gset("zero", b, ite(tracked & (d == ~(u64)0) & (vc_hload(a) == 0), 1, vc_gget("zero", b)));
}
void vc_fence(u64 order) { vc_gset("acq", 0, ite((order == 1) | (order == 3), 1, vc_gget("acq", 0))); vc_gset("relf", 0, ite(order >= 2, 1, vc_gget("relf", 0))); }
}
#endif
static void world() { vc_world(); instances(); vc_gzero("own", 0); vc_gzero("tracked", 0); vc_gzero("delta", 0); vc_gzero("zero", 0); vc_gzero("cb", 0); vc_gzero("acq", ATOMIC ? 0 : 1); vc_gzero("relf", 0); }
// an arbitrary block that `mine` handles of this thread (and any number of others) refer to
static u64 someblock(u64 id, u64 mine) {
  u64 b = vc_someblock("block", SYS, sizeof(block)); vc_assume(id < 65536); vc_assume(bid(b) == id); vc_assume(vc_gget("idlive", id) == 1);
  u64 others = vc_any("other_handles"); vc_assume(others < HEAP_HI); vc_assume(bcnt(b) == mine + others);
  vc_gset("tracked", b, 1); vc_gset("own", b, mine); vc_gset("c0", b, bcnt(b));
  return b;
}
static u64 nid(const char* s) { u64 i = vc_any(s); vc_assume(i < 65536); return i; }
static X& at(X& x, u64 b) { x.m_Block = (decltype(x.m_Block))b; return x; }
static u64 to(const X& x) { return adr(x.m_Block); }
// net change of the count by this thread
#if ATOMIC
static u64 moved(u64 b) { return vc_gget("delta", b); }
static bool last(u64 b) { return vc_gget("zero", b) == 1; }
#else
static u64 moved(u64 b) { return bcnt(b) - vc_gget("c0", b); }
static bool last(u64 b) { return bcnt(b) == 0; }
#endif
// after giving up a handle: destroyed exactly when it was the last one
static void dropped(u64 b, u64 id, u64 base) {
  vc_check(moved(b) == ~(u64)0, "the count falls by one when a handle goes away");
  if (last(b)) { vc_reach("last handle"); vc_check(vc_gget("idlive", id) == 0 && vc_gget("dtors", 0) == 1 && vc_gget("sysfrees", 0) == 1 && vc_gget("released", b) == 1, "with the last handle the allocator is destroyed and its memory released, once"); vc_check(vc_gget("acq", 0) == 1, "the last handle sees what was done through all others"); }
  else { vc_reach("other handles remain"); vc_check(vc_gget("idlive", id) == 1 && vc_gget("dtors", 0) == 0 && vc_gget("sysfrees", 0) == 0, "the allocator lives while another handle refers to it"); }
}
static void kept(u64 b, u64 id, u64 d) { vc_check(moved(b) == d, "the count stays exact"); vc_check(vc_gget("idlive", id) == 1 && live(b) != 0 && bid(b) == id, "the allocator lives while a handle refers to it"); }
static void none() { vc_check(vc_gget("dtors", 0) == 0 && vc_gget("ctors", 0) == 0 && vc_gget("sysallocs", 0) == 0 && vc_gget("sysfrees", 0) == 0, "no allocator is created or destroyed"); }

H(sh_create) {
  world(); vc_gmap("c0"); X* x = new (vc_pin(sizeof(X))) X();
  u64 b = to(*x);
  if (b == 0) { vc_reach("out of memory"); vc_check(vc_gget("ctors", 0) == 0 && vc_gget("sysfail", 0) == 1, "A03,A10: creation fails only when memory runs out"); vc_check(x->allocate(vc_any("n")) == nullptr, "A03,A10: without an allocator every request is refused"); }
  else { vc_reach("created"); vc_term(T_PTR, b); vc_check(live(b) != 0 && owner(b) == SYS && bsize(b) >= sizeof(block), "the block is the memory obtained"); vc_check(bcnt(b) == 1, "a new handle is the only one"); vc_check(vc_gget("ctors", 0) == 1 && vc_gget("dtors", 0) == 0 && vc_gget("idlive", bid(b)) == 1, "one allocator is created"); }
}
H(sh_create_args) {
  world(); vc_gmap("c0"); u64 i = nid("id"); vc_assume(vc_gget("idlive", i) == 0); X* x = new (vc_pin(sizeof(X))) X(i);
  u64 b = to(*x);
  if (b == 0) { vc_reach("out of memory"); vc_check(vc_gget("ctors", 0) == 0 && vc_gget("sysfail", 0) == 1, "A03,A10: creation fails only when memory runs out"); }
  else { vc_reach("created"); vc_term(T_PTR, b); vc_check(live(b) != 0 && bid(b) == i, "A10,A12: the allocator is built from the arguments"); vc_check(bcnt(b) == 1, "a new handle is the only one"); vc_check(vc_gget("ctors", 0) == 1 && vc_gget("idlive", i) == 1, "one allocator is created"); }
}
#define START world(); vc_gmap("c0"); u64 i = nid("id")
#define PIN(name) X& name = *(X*)vc_pin(sizeof(X))
H(sh_copy) {
  START; u64 b = vc_fork(vc_any("empty") != 0) ? 0 : someblock(i, 1); PIN(x); at(x, b);
  X* y = new (vc_pin(sizeof(X))) X((const X&)x);
  vc_check(to(*y) == b && to(x) == b, "A10,A12: a copy refers to the same allocator"); if (b) { kept(b, i, 1); vc_reach("copied"); vc_check(x == *y && !(x != *y), "A13: a copy is equal"); } none();
}
H(sh_move) {
  START; u64 b = vc_fork(vc_any("empty") != 0) ? 0 : someblock(i, 1); PIN(x); at(x, b);
  X* y = new (vc_pin(sizeof(X))) X((X&&)x);
  vc_check(to(*y) == b, "A10,A12: a moved handle refers to the same allocator"); vc_reach("moved"); none();
  if (b) kept(b, i, to(x) == b ? 1 : 0);
  vc_check(to(x) == b || to(x) == 0, "the source refers to it or to nothing");
}
H(sh_drop) {
  START; u64 b = someblock(i, 1); PIN(x); at(x, b);
  x.~X(); dropped(b, i, 0); vc_check(vc_gget("ctors", 0) == 0, "no allocator is created");
}
H(sh_drop_empty) { START; PIN(x); at(x, 0); x.~X(); vc_reach("dropped"); none(); }
// several handles of one thread go away one after the other
H(sh_drop_two) {
  START; u64 b = someblock(i, 2); PIN(x); PIN(y); at(x, b); at(y, b);
  x.~X(); vc_check(vc_gget("idlive", i) == 1 && live(b) != 0, "the allocator lives while a handle refers to it"); 
  y.~X(); vc_reach("both dropped"); vc_check(vc_gget("dtors", 0) <= 1, "the allocator is destroyed at most once");
  if (vc_gget("dtors", 0) == 0) vc_reach("others remain");
}
H(sh_copy_assign) {   // different blocks
  START; u64 j = nid("id2"); vc_assume(i != j); u64 b = vc_fork(vc_any("empty_target") != 0) ? 0 : someblock(i, 1), c = vc_fork(vc_any("empty_source") != 0) ? 0 : someblock(j, 1); vc_assume(b != c);
  PIN(x); PIN(y); at(x, b); at(y, c);
  x = (const X&)y;
  vc_check(to(x) == c && to(y) == c, "A10,A12: both refer to the source's allocator");
  if (c) kept(c, j, 1); if (b) { dropped(b, i, 0); } else none();
}
H(sh_copy_assign_same) {   // two handles on the same block
  START; u64 b = vc_fork(vc_any("empty") != 0) ? 0 : someblock(i, 2); PIN(x); PIN(y); at(x, b); at(y, b);
  x = (const X&)y; vc_check(to(x) == b && to(y) == b, "both still refer to it"); none(); if (b) { vc_reach("assigned"); kept(b, i, 0); }
}
H(sh_copy_assign_self) {
  START; u64 b = vc_fork(vc_any("empty") != 0) ? 0 : someblock(i, 1); PIN(x); at(x, b); X* q = &x;
  x = (const X&)*q; vc_check(to(x) == b, "it still refers to it"); none(); if (b) { vc_reach("assigned"); kept(b, i, 0); }
}
H(sh_move_assign) {
  START; u64 j = nid("id2"); vc_assume(i != j); u64 b = vc_fork(vc_any("empty_target") != 0) ? 0 : someblock(i, 1), c = vc_fork(vc_any("empty_source") != 0) ? 0 : someblock(j, 1); vc_assume(b != c);
  PIN(x); PIN(y); at(x, b); at(y, c);
  x = (X&&)y;
  vc_check(to(x) == c, "A10,A12: the target refers to the source's allocator");
  if (to(y) == b && b != 0) { kept(b, i, 0); if (c) kept(c, j, 0); none(); }        // exchanged
  else { vc_check(to(y) == c || to(y) == 0, "the source refers to it or to nothing"); if (c) kept(c, j, to(y) == c ? 1 : 0); if (b) dropped(b, i, 0); else none(); }
}
H(sh_move_assign_same) {
  START; u64 b = vc_fork(vc_any("empty") != 0) ? 0 : someblock(i, 2); PIN(x); PIN(y); at(x, b); at(y, b);
  x = (X&&)y; vc_check(to(x) == b && (to(y) == b || to(y) == 0), "the target still refers to it"); none(); if (b) { vc_reach("assigned"); kept(b, i, to(y) == b ? 0 : ~(u64)0); }
}
H(sh_move_assign_self) {
  START; u64 b = vc_fork(vc_any("empty") != 0) ? 0 : someblock(i, 1); PIN(x); at(x, b); X* q = &x;
  x = (X&&)*q;
  if (b) { vc_reach("assigned"); if (to(x) == b) { kept(b, i, 0); none(); } else { vc_check(to(x) == 0, "it refers to it or to nothing"); dropped(b, i, 0); } }
}
// requests go to the shared allocator
H(sh_use) {
  START; u64 b = someblock(i, 1); PIN(x); at(x, b); u64 n = vc_any("n"); log_reset();
  u64 p = adr(x.allocate(n)); vc_check(log_n() == 1 && log_is(0, EV_ALLOC, i, n, 0) && p == log_r(0), "A03,A10,A12: the shared allocator is asked once for n bytes and its answer returned");
  u64 m = vc_any("m"), q = vc_someblock("q", i, m); log_reset(); x.deallocate((void*)q, m); vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, i, q, m), "A10,A12: the block goes to the shared allocator once");
  none(); kept(b, i, 0); vc_check(to(x) == b, "A10,A12: the handle is unchanged"); vc_reach("used");
}
H(sh_cons) {
  START; u64 b = someblock(i, 1); PIN(x); at(x, b); u64 n = vc_any("n"); vc_assume(n >= 8); u64 p = vc_someblock("p", i, n), v = vc_any("v"); 
  log_reset(); x.construct((Obj*)p, v); vc_check(log_n() == 2 && log_is(0, EV_CONS, i, p, 1) && log_is(1, EV_TCTOR, 0, p, v), "A12: the shared allocator constructs the object exactly once");
  log_reset(); x.destroy((Obj*)p); vc_check(log_n() == 2 && log_is(0, EV_DEST, i, p, 0) && log_is(1, EV_TDTOR, 0, p, 0), "A12: the shared allocator destroys the object exactly once"); none(); vc_reach("constructed and destroyed");
}
H(sh_owns) {
  START; u64 b = someblock(i, 1); PIN(x); at(x, b); u64 p = vc_any("p"); log_reset();
  vc_check(x.owns((void*)p) == oa_owns(i, p), "A04,A12: owns answers as the shared allocator"); vc_check(x.max_size() == vc_fun1("max_size", i), "A12: max_size is the shared allocator's"); vc_check(adr(&x.get_allocator()) == b + OFF_ID && adr(&((const X&)x).get_allocator()) == b + OFF_ID, "A12: get_allocator is the shared allocator");
  vc_check(log_n() == 0, "A04: asking changes nothing"); none(); kept(b, i, 0); vc_reach("asked");
}
H(sh_eq) {
  START; u64 j = nid("id2"); vc_assume(i != j); u64 b = vc_fork(vc_any("empty1") != 0) ? 0 : someblock(i, 2), c = vc_fork(vc_any("same") != 0) ? b : (vc_fork(vc_any("empty2") != 0) ? 0 : someblock(j, 1));
  PIN(x); PIN(y); at(x, b); at(y, c); bool e = b == c;
  vc_check((x == y) == e && (y == x) == e, "A13: handles are equal exactly when they refer to the same allocator"); vc_check((x != y) == !e && (y != x) == !e, "A13: inequality is the negation of equality"); vc_check(x == x && !(x != x), "A13: equality is reflexive"); if (e) vc_reach("equal"); else vc_reach("different");
}
