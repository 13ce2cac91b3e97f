// A06: freelist
#include "opaque.h"
#include "ktl/allocators/freelist.h"
typedef OA<1, C_OWNS> S;
#ifndef MIN
#define MIN 0
#endif
#ifndef MAX
#define MAX 64
#endif
typedef ktl::freelist<MIN, MAX, S> FL;
#define N(i) vc_fun1("N", i)
#define M(i) vc_fun1("M", i)

// an arbitrary chain of k recycled blocks, each a live block of MAX bytes obtained from allocator id
template<class NF> static u64 chain(FL& x, u64 id, u64 k, NF nf) {
  vc_assume(k < HEAP_HI);
  vc_assume_all(T_IT, [=](u64 i) { u64 p = nf(i); return imp(i < k, (live(p) != 0) & (owner(p) == id) & (bsize(p) == MAX) & (p >= HEAP_LO) & (p < HEAP_HI) & ((p & 15) == 0) &
                                     (vc_hload(p) == ite(i + 1 < k, nf(i + 1), 0))); });
  vc_assume_all2(T_IT, [=](u64 i, u64 j) { return imp((i < k) & (j < k) & (i != j), nf(i) != nf(j)); });
  vc_term(T_IT, 0); vc_term(T_IT, 1);
  x.m_Free = (decltype(x.m_Free))ite(k > 0, nf(0), 0);
  return k;
}
static auto NF = [](u64 i) { return vc_fun1("N", i); };
static auto MF = [](u64 i) { return vc_fun1("M", i); };
static u64 newid() { u64 id = vc_any("id"); vc_assume(id < 65536); return id; }

H(fl_alloc) {
  vc_world(); u64 id = newid(); FL x{S(id)}; u64 k = vc_any("chain_length"); chain(x, id, k, NF);
  // any block in use by the client: live, from this freelist, not in the chain
  u64 u = vc_someblock("user_block", id, MAX);
  vc_assume_all(T_IT, [=](u64 i) { return imp(i < k, NF(i) != u); });
  u64 n = vc_any("n"); log_reset(); u64 s = vc_snap();
  u64 p = adr(x.allocate(n));
  if (!((n > MIN) & (n <= MAX))) { vc_reach("size refused"); vc_check(p == 0, "a size outside the range is refused"); vc_check(log_n() == 0 && adr(x.m_Free) == ite(k > 0, N(0), 0), "a refused request changes nothing"); }
  else if (k > 0) { vc_reach("recycled");
    vc_check(p == N(0), "a recycled block is preferred"); vc_check(log_n() == 0, "the underlying allocator is not asked while recycled blocks exist");
    vc_check(adr(x.m_Free) == ite(1 < k, N(1), 0), "the remaining chain is kept"); vc_check(p != u, "a block in use is never given out"); }
  else { vc_check(log_n() == 1 && log_is(0, EV_ALLOC, id, MAX, 0), "a new block of the full size is requested"); vc_check(p == log_r(0), "the underlying allocator's answer is returned");
    if (p) vc_reach("new block"); else vc_reach("out of memory");
    vc_check(p == 0 || p != u, "a block in use is never given out"); vc_check(adr(x.m_Free) == 0, "the chain stays empty"); }
  vc_check_all(T_IT, "links of the chain are unchanged", [=](u64 i) { return imp((i >= 1) & (i < k), vc_hload(NF(i)) == vc_hload_at(s, NF(i))); });
  vc_check(x.m_Alloc.id == id, "the underlying allocator is unchanged");
  vc_check_all(T_ADDR, "client data is untouched", [=](u64 a) { return imp((a >= u) & (a - u < MAX), vc_hload(a) == vc_hload_at(s, a)); });
  log_reset(); vc_dead();
}
H(fl_dealloc) {
  vc_world(); u64 id = newid(); FL x{S(id)}; u64 k = vc_any("chain_length"); chain(x, id, k, NF);
  u64 u = vc_someblock("user_block", id, MAX), p = vc_someblock("p", id, MAX);
  vc_assume(u != p);
  vc_assume_all(T_IT, [=](u64 i) { return imp(i < k, (NF(i) != u) & (NF(i) != p)); });
  u64 n = vc_any("n"); vc_assume((n > MIN) & (n <= MAX)); log_reset(); u64 s = vc_snap();
  x.deallocate((void*)p, n);
  vc_reach("returned");
  vc_check(adr(x.m_Free) == p, "the block becomes the head of the chain");
  vc_check(vc_hload(p) == ite(k > 0, N(0), 0), "the old chain follows");
  vc_check(log_n() == 0, "the block is kept for reuse");
  vc_check_all(T_IT, "links of the chain are unchanged", [=](u64 i) { vc_term(T_PTR, NF(i)); return imp(i < k, vc_hload(NF(i)) == vc_hload_at(s, NF(i))); });
  vc_check_all(T_ADDR, "client data is untouched", [=](u64 a) { return imp((a >= u) & (a - u < MAX), vc_hload(a) == vc_hload_at(s, a)); });
  vc_check(x.m_Alloc.id == id, "the underlying allocator is unchanged");
  vc_dead();
}
template<class NF_> static void release_inv(u64 id, u64 k, NF_ nf) {
  u64 s = vc_snap();
  vc_inv_var([=](u64 it, u64 v) { vc_claim(v == ite(it < k, nf(it), 0)); });
  vc_inv([=](u64 it) {
    vc_claim(it <= k); vc_claim(log_n() == it);
    vc_claim_all(T_IT, [=](u64 i) { return imp(i < it, log_is(i, EV_DEALLOC, id, nf(i), MAX)); });
    vc_claim_all(T_IT, [=](u64 i) { return imp((i >= it) & (i < k), live(nf(i)) != 0); });
    vc_claim_all(T_ADDR, [=](u64 p) { return imp(vc_gget("member", p) == 0, live(p) == vc_gget_at(s, "live", p)); });
  });
}
static void member(u64 k) { vc_gmap("member"); vc_assume_all(T_IT, [=](u64 i) { return imp(i < k, vc_gget("member", NF(i)) == 1); }); }
H(fl_destroy) {
  vc_world(); u64 id = newid(); u64 k = vc_any("chain_length");
  {
    FL x{S(id)}; chain(x, id, k, NF); member(k); log_reset();
    release_inv(id, k, NF);
  }
  vc_reach("destroyed");
  vc_check(log_n() == k, "as many blocks are given back as were recycled");
  vc_check_all(T_IT, "each recycled block is given back once, with its size", [=](u64 i) { return imp(i < k, log_is(i, EV_DEALLOC, id, NF(i), MAX)); });
}
H(fl_move) {
  vc_world(); u64 id = newid(); FL x{S(id)}; u64 k = vc_any("chain_length"); chain(x, id, k, NF); log_reset(); u64 s = vc_snap();
  FL y{std::move(x)};
  vc_reach("moved");
  vc_check(adr(y.m_Free) == ite(k > 0, N(0), 0), "the chain moves"); vc_check(adr(x.m_Free) == 0, "the source keeps no block"); vc_check(y.m_Alloc.id == id, "the allocator moves");
  vc_check(log_n() == 0, "no block changes hands");
  vc_check_all(T_IT, "links of the chain are unchanged", [=](u64 i) { return imp(i < k, vc_hload(NF(i)) == vc_hload_at(s, NF(i))); });
  vc_dead();
}
H(fl_move_assign) {
  vc_world(); u64 id = newid(), id2 = newid(); u64 k = vc_any("chain_length"), k2 = vc_any("chain_length2");
  FL x{S(id)}; chain(x, id, k, NF); member(k); FL y{S(id2)}; chain(y, id2, k2, MF);
  vc_assume_all(T_IT, [=](u64 j) { return imp(j < k2, vc_gget("member", MF(j)) == 0); });
  log_reset(); u64 s = vc_snap();
  release_inv(id, k, NF);
  vc_inv([=](u64) { vc_claim_all(T_IT, [=](u64 j) { return imp(j < k2, live(MF(j)) != 0); }); });
  x = std::move(y);
  vc_reach("assigned");
  vc_check(log_n() == k, "as many blocks are given back as were recycled");
  vc_check_all(T_IT, "each recycled block of the target is given back once, with its size", [=](u64 i) { return imp(i < k, log_is(i, EV_DEALLOC, id, NF(i), MAX)); });
  vc_check(adr(x.m_Free) == ite(k2 > 0, M(0), 0), "the chain moves"); vc_check(adr(y.m_Free) == 0, "the source keeps no block"); vc_check(x.m_Alloc.id == id2, "the allocator moves");
  vc_check_all(T_IT, "links of the chain are unchanged", [=](u64 i) { return imp(i < k2, (vc_hload(MF(i)) == vc_hload_at(s, MF(i))) & (live(MF(i)) != 0)); });
  vc_dead();
}
