// A07 (and parts of A03, A04, A12, A13): cascading over opaque instances; system memory by malloc/free contracts
#include "instance.h"
#include "ktl/allocators/cascading.h"
#ifndef CAPS
#define CAPS (C_OWNS | C_MAX | C_CONS)
#endif
template<unsigned C> using CA = ktl::cascading<CI<C>>;
typedef CA<CAPS> X;
typedef X::node node;
#define OFF_ID offsetof(node, Allocator)
#define OFF_CNT offsetof(node, Allocations)
#define OFF_NEXT offsetof(node, Next)
VCI u64 nid(u64 p) { return vc_hload(p + OFF_ID); }
VCI u64 ncnt(u64 p) { return vc_hload(p + OFF_CNT); }
VCI u64 nnext(u64 p) { return vc_hload(p + OFF_NEXT); }
static auto NF = [](u64 i) { return vc_fun1("N", i); };
static auto IF = [](u64 i) { return vc_fun1("I", i); };
static auto MF = [](u64 i) { return vc_fun1("M", i); };
static auto JF = [](u64 i) { return vc_fun1("J", i); };
static void world() {
  vc_world(); instances();
}
// an arbitrary chain of k instances, each counting its own live blocks
template<class A, class NF_, class IF_> static void chain(A& x, u64 k, NF_ nf, IF_ idf) {
  vc_assume(k < HEAP_HI);
  vc_assume_all(T_IT, [=](u64 i) { u64 p = nf(i); return imp(i < k, (live(p) != 0) & (owner(p) == SYS) & (bsize(p) == sizeof(node)) & (p >= HEAP_LO) & (p < HEAP_HI) & ((p & 15) == 0) &
    (nnext(p) == ite(i + 1 < k, nf(i + 1), 0)) & (nid(p) == idf(i)) & (idf(i) < 65536) & (vc_gget("idlive", idf(i)) == 1) & (ncnt(p) == vc_gget("blocks", idf(i))) & (ncnt(p) < HEAP_HI)); });
  vc_assume_all2(T_IT, [=](u64 i, u64 j) { return imp((i < k) & (j < k) & (i != j), (nf(i) != nf(j)) & (idf(i) != idf(j))); });
  vc_term(T_IT, 0); vc_term(T_IT, 1);
  x.m_Node = (decltype(x.m_Node))ite(k > 0, nf(0), 0);
}
template<class A> static void discard(A& x) { x.m_Node = nullptr; }
static u64 head(X& x) { return adr(x.m_Node); }
#define N0 ite(k > 0, NF(0), 0)

template<class A, bool MAX> static void c_alloc() {
  world(); A x; u64 k = vc_any("instances"); chain(x, k, NF, IF); u64 n = vc_any("n"); log_reset(); u64 s = vc_snap();
  vc_gset("strict", 0, 1);
  u64 p = adr(x.allocate(n));
  u64 h = adr(x.m_Node), grown = vc_gget("ctors", 0) - vc_gget("dtors", 0);
  vc_check(vc_gget("sysallocs", 0) - vc_gget("sysfrees", 0) == grown, "A07: memory is held exactly for the instances that live");
  vc_check(imp((vc_gget("ctors", 0) > 0) & (k > 0), (log_n() >= 1) & log_is(0, EV_ALLOC, IF(0), n, 0) & (log_r(0) == 0)), "A07: a new instance is created only when the current one cannot serve");
  if (h == N0) { vc_check(grown == 0, "A07: an instance that is not kept is destroyed"); vc_check(imp(p != 0, (k > 0) & (owner(p) == IF(0))), "A07: the block belongs to an instance that is kept");
    if (k > 0) { vc_check(ncnt(h) == vc_hload_at(s, h + OFF_CNT) + (u64)(p != 0), "A07: the instance counts its blocks"); vc_check(nid(h) == IF(0) && nnext(h) == ite(1 < k, NF(1), 0), "A07: the instances are kept"); if (p) vc_reach("served by the current instance"); } }
  else { vc_term(T_PTR, h);
    u64 e = nnext(h);   // without any instance, a first one may be created that cannot serve before the one that does
    if (grown == 2) { vc_term(T_PTR, e); vc_check(k == 0 && e != 0 && live(e) != 0 && vc_gget("idlive", nid(e)) == 1 && ncnt(e) == 0 && nid(e) != nid(h), "A07: only the first two instances can be created together"); e = nnext(e); }
    vc_check((grown == 1 || grown == 2) && live(h) != 0 && vc_gget("idlive", nid(h)) == 1 && vc_gget("fresh", nid(h)) == 1, "A07: the current instance is the one created");
    vc_check(e == N0, "A07: the other instances are kept"); vc_check(ncnt(h) == (u64)(p != 0), "A07: the instance counts its blocks");
    vc_check(imp(p != 0, owner(p) == nid(h)), "A07: the block belongs to an instance that is kept"); vc_check(imp(p == 0, k == 0), "A07: an instance that serves nothing is not kept");
    if (k > 0) vc_check(vc_hload(NF(0) + OFF_CNT) == vc_hload_at(s, NF(0) + OFF_CNT) && nid(NF(0)) == IF(0) && nnext(NF(0)) == ite(1 < k, NF(1), 0), "A07: the other instances are unchanged");
    if (p) vc_reach("served by a new instance"); }
  if (p) vc_check(bsize(p) == n && live(p) != 0, "A03,A07: the block is one obtained for n bytes");
  else { vc_reach("refused"); bool big = false; if (MAX && k > 0) big = n > vc_fun1("max_size", IF(0)); if (MAX && k == 0 && h != 0) big = n > vc_fun1("max_size", nid(h));
    vc_check((vc_gget("sysfail", 0) != 0) | (vc_gget("newfail", 0) != 0) | big, "A07: a request is refused only when it cannot be met"); }
  vc_check_all(T_IT, "A03,A07: other instances are unchanged", [=](u64 i) { u64 q = NF(i); vc_term(T_PTR, q); return imp((i >= 1) & (i < k), (live(q) != 0) & (vc_gget("idlive", IF(i)) == 1) & (nid(q) == IF(i)) & (ncnt(q) == vc_hload_at(s, q + OFF_CNT)) & (nnext(q) == ite(i + 1 < k, NF(i + 1), 0))); });
  discard(x);
}
H(ca_alloc) { c_alloc<CA<C_OWNS | C_MAX | C_CONS>, true>(); }
H(ca_alloc_nomax) { c_alloc<CA<C_OWNS>, false>(); }
static void find_inv(u64 k, u64 j) {
  vc_inv_var([=](u64 it, u64 v) { vc_claim(v == ite(it < k, NF(it), 0)); vc_claim(v == ite(it > 0, NF(it - 1), 0)); });
  vc_inv([=](u64 it) { vc_claim(it <= j); vc_claim(it <= k); vc_claim(it < k); });
}
H(ca_dealloc) {
  world(); X x; u64 k = vc_any("instances"); chain(x, k, NF, IF);
  u64 j = vc_any("instance_index"); vc_assume(j < k); vc_term(T_IT, j); vc_term(T_IT, j + 1); vc_term(T_IT, j - 1);
  u64 n = vc_any("n"), p = vc_someblock("p", IF(j), n);
  vc_assume(vc_gget("blocks", IF(j)) >= 1);
  log_reset(); u64 s = vc_snap(); vc_gset("strict", 0, 1);
  find_inv(k, j);
  x.deallocate((void*)p, n);
  u64 q = NF(j), c = vc_hload_at(s, q + OFF_CNT);
  vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, IF(j), p, n), "A07: the block goes back to its instance once, with its size"); vc_check(vc_gget("ctors", 0) == 0 && vc_gget("sysallocs", 0) == 0, "A07: no instance is created");
  vc_check(adr(x.m_Node) == NF(0), "A07: the current instance stays");
  bool gone = (c == 1) & (j > 0);
  if (gone) { vc_reach("instance destroyed");
    vc_check(vc_gget("dtors", 0) == 1 && vc_gget("lastdtor", 0) == IF(j), "A07: an instance whose last block is returned is destroyed"); vc_check(vc_gget("sysfrees", 0) == 1 && live(q) == 0, "A07: its memory is released");
    vc_check(nnext(NF(j - 1)) == ite(j + 1 < k, NF(j + 1), 0), "A07: the other instances stay linked"); }
  else { vc_reach("instance kept"); vc_check(vc_gget("dtors", 0) == 0 && vc_gget("sysfrees", 0) == 0, "A07: an instance with live blocks, or the current one, is kept"); vc_check(ncnt(q) == c - 1, "A07: the instance counts its blocks"); vc_check(nnext(q) == ite(j + 1 < k, NF(j + 1), 0) && nid(q) == IF(j), "A07: the instances stay linked"); }
  vc_check_all(T_IT, "A07: other instances are unchanged", [=](u64 i) { u64 q = NF(i); return imp((i < k) & (i != j), (live(q) != 0) & (vc_gget("idlive", IF(i)) == 1) & (nid(q) == IF(i)) & (ncnt(q) == vc_hload_at(s, q + OFF_CNT)) & imp(!(gone & (i + 1 == j)), nnext(q) == ite(i + 1 < k, NF(i + 1), 0))); });
  discard(x);
}
H(ca_cons) {
  world(); X x; u64 k = vc_any("instances"); chain(x, k, NF, IF);
  u64 j = vc_any("instance_index"); vc_assume(j < k); vc_term(T_IT, j); u64 n = vc_any("n"), v = vc_any("v"); vc_assume(n >= 8); u64 p = vc_someblock("p", IF(j), n); u64 h = head(x);
  find_inv(k, j); log_reset();
  x.construct((Obj*)p, v); vc_check(log_n() == 2 && log_is(0, EV_CONS, IF(j), p, 1) && log_is(1, EV_TCTOR, 0, p, v), "A07,A12: the owning instance constructs the object exactly once"); vc_reach("constructed");
  discard(x);
}
H(ca_dest) {
  world(); X x; u64 k = vc_any("instances"); chain(x, k, NF, IF);
  u64 j = vc_any("instance_index"); vc_assume(j < k); vc_term(T_IT, j); u64 n = vc_any("n"); vc_assume(n >= 8); u64 p = vc_someblock("p", IF(j), n);
  find_inv(k, j); log_reset();
  x.destroy((Obj*)p); vc_check(log_n() == 2 && log_is(0, EV_DEST, IF(j), p, 0) && log_is(1, EV_TDTOR, 0, p, 0), "A07,A12: the owning instance destroys the object exactly once"); vc_reach("destroyed");
  discard(x);
}
H(ca_owns) {
  world(); X x; u64 k = vc_any("instances"); chain(x, k, NF, IF); u64 p = vc_any("p"); vc_term(T_PTR, p); log_reset();
  vc_inv_var([=](u64 it, u64 v) { vc_claim(v == ite(it < k, NF(it), 0)); });
  vc_inv([=](u64 it) { vc_claim(it <= k); vc_claim_all(T_IT, [=](u64 i) { return imp(i < it, vc_gget("own", OWNKEY(IF(i), p)) == 0); }); });
  bool r = x.owns((void*)p);
  u64 w = vc_any("witness"); vc_term(T_IT, w);
  if (!r) { vc_reach("not owned"); vc_check(imp(w < k, vc_gget("own", OWNKEY(IF(w), p)) == 0), "A04: owns is false only when no instance owns the address"); }
  else vc_reach("owned");
  vc_check(log_n() == 0 && vc_gget("ctors", 0) == 0 && vc_gget("dtors", 0) == 0, "A04: asking changes nothing");
  vc_assume_all(T_IT, [=](u64 i) { return imp(i < k, vc_gget("own", OWNKEY(IF(i), p)) == 0); });   // if no instance owned it ...
  vc_check(!r, "A04: owns is true only when an instance owns the address");
  discard(x);
}
H(ca_owns_mine) {
  world(); X x; u64 k = vc_any("instances"); chain(x, k, NF, IF); u64 j = vc_any("instance_index"); vc_assume(j < k); vc_term(T_IT, j); u64 p = vc_someblock("p", IF(j), vc_any("n"));
  find_inv(k, j);
  vc_check(x.owns((void*)p), "A04: a live block is owned"); vc_reach("asked"); discard(x);
}
template<class NF_, class IF_> static void release_inv(u64 k, NF_ nf, IF_ idf) {
  u64 s = vc_snap();
  vc_inv_var([=](u64 it, u64 v) { vc_claim(v == ite(it < k, nf(it), 0)); });
  vc_inv([=](u64 it) {
    vc_claim(it <= k); vc_claim(vc_gget("dtors", 0) == it); vc_claim(vc_gget("sysfrees", 0) == it);
    vc_claim_all(T_IT, [=](u64 i) { return imp(i < it, (vc_gget("idlive", idf(i)) == 0) & (live(nf(i)) == 0)); });
    vc_claim_all(T_IT, [=](u64 i) { return imp((i >= it) & (i < k), (vc_gget("idlive", idf(i)) == 1) & (live(nf(i)) != 0)); });
  });
}
H(ca_release) {
  world(); u64 k = vc_any("instances");
  { X x; chain(x, k, NF, IF); log_reset(); release_inv(k, NF, IF); }
  vc_reach("destroyed");
  vc_check(vc_gget("dtors", 0) == k && vc_gget("sysfrees", 0) == k, "A07: as many instances are destroyed and released as there were");
  vc_check_all(T_IT, "A07: every instance is destroyed and its memory released", [=](u64 i) { return imp(i < k, (vc_gget("idlive", IF(i)) == 0) & (live(NF(i)) == 0)); });
}
H(ca_move) {
  world(); X x; u64 k = vc_any("instances"); chain(x, k, NF, IF); u64 s = vc_snap();
  X y(std::move(x)); vc_reach("moved");
  vc_check(adr(y.m_Node) == N0, "A07: the instances move"); vc_check(adr(x.m_Node) == 0, "A07: the source keeps no instance"); vc_check(vc_gget("dtors", 0) == 0 && vc_gget("ctors", 0) == 0, "A07: no instance is created or destroyed");
  vc_check_all(T_IT, "A07: the instances are unchanged", [=](u64 i) { u64 q = NF(i); return imp(i < k, (nid(q) == IF(i)) & (ncnt(q) == vc_hload_at(s, q + OFF_CNT)) & (nnext(q) == ite(i + 1 < k, NF(i + 1), 0))); });
  discard(y);
}
H(ca_move_assign) {
  world(); u64 k = vc_any("instances"), k2 = vc_any("instances2"); X x; chain(x, k, NF, IF); X y; chain(y, k2, MF, JF);
  vc_gmap("mine"); vc_assume_all(T_IT, [=](u64 i) { return imp(i < k, (vc_gget("mine", NF(i)) == 1) & (vc_gget("mine", IF(i)) == 1)); }); vc_assume_all(T_IT, [=](u64 i) { return imp(i < k2, (vc_gget("mine", MF(i)) == 0) & (vc_gget("mine", JF(i)) == 0)); });
  u64 s = vc_snap();
  release_inv(k, NF, IF);
  vc_inv([=](u64) { vc_claim_all(T_IT, [=](u64 i) { return imp(i < k2, (live(MF(i)) != 0) & (vc_gget("idlive", JF(i)) == 1)); }); });
  x = std::move(y); vc_reach("assigned");
  vc_check(vc_gget("dtors", 0) == k && vc_gget("sysfrees", 0) == k, "A07: as many instances are destroyed and released as the target had");
  vc_check_all(T_IT, "A07: every instance of the target is destroyed and its memory released", [=](u64 i) { return imp(i < k, (vc_gget("idlive", IF(i)) == 0) & (live(NF(i)) == 0)); });
  vc_check(adr(x.m_Node) == ite(k2 > 0, MF(0), 0), "A07: the instances move"); vc_check(adr(y.m_Node) == 0, "A07: the source keeps no instance");
  vc_check_all(T_IT, "A07: the moved instances are unchanged", [=](u64 i) { u64 q = MF(i); return imp(i < k2, (live(q) != 0) & (vc_gget("idlive", JF(i)) == 1) & (nid(q) == JF(i)) & (ncnt(q) == vc_hload_at(s, q + OFF_CNT)) & (nnext(q) == ite(i + 1 < k2, MF(i + 1), 0))); });
  discard(x);
}
H(ca_max) {
  world(); X x; u64 k = vc_any("instances"); chain(x, k, NF, IF); vc_gset("strict", 0, 1);
  u64 m = x.max_size();
  if (k > 0) { vc_reach("with instances"); vc_check(m == vc_fun1("max_size", IF(0)), "A12: max_size is the current instance's"); } else vc_reach("without instances");
  vc_check(vc_gget("ctors", 0) == vc_gget("dtors", 0) && adr(x.m_Node) == N0, "A07: asking leaves no instance behind"); discard(x);
}
H(ca_eq) {
  world(); X x, y; x.m_Node = (node*)vc_any("a"); y.m_Node = (node*)vc_any("b"); bool e = x.m_Node == y.m_Node;
  vc_check((x == y) == e && (y == x) == e && (x != y) == !e && (y != x) == !e && x == x && !(x != x), "A13: allocators are equal exactly when they share their instances; inequality is the negation"); vc_reach("compared"); discard(x); discard(y);
}
