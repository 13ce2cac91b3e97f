#pragma once
#include "drv.h"
#include "ktl/allocators/freelist.h"
namespace fld {
struct Live { char* p; u64 n; unsigned char b; };
template<size_t Min, size_t Max, class RA> static void history() {
  typedef ktl::freelist<Min, Max, RA> F; rec_reset(); live_reset(); int me = 1 + below(3), other = 4; std::unique_ptr<F> f(new F(RA(me))); std::vector<Live> live; std::set<char*> rec; unsigned char tag = 1; int len = 4 + below(50);
  auto check_event = [&](char k, u64 n, const char* what) { CK("A03 A06 A12", g_ev.size() == 1 && g_ev[0].k == k && g_ev[0].who == me && g_ev[0].n == n, "%s", what); };
  auto intact = [&] { for (auto& l : live) CK("A03 A06", painted(l.p, Max, l.b), "the contents of a block in use were disturbed"); };
  auto alloc = [&](u64 n) {
    bool in = n > Min && n <= Max; if (chance(15)) g_failnext[me] = 1; else g_failnext[me] = 0; g_ev.clear(); char* p = (char*)f->allocate(n); bool willfail = g_failnext[me]; (void)willfail;
    step("allocate(%llu) = %p", (unsigned long long)n, p);
    if (!in) { CK("A03 A06", p == nullptr, "allocate(%llu) is outside the range (%zu,%zu] but was served", (unsigned long long)n, Min, Max); CK("A03 A06", g_ev.empty(), "the underlying allocator was asked for a size outside the range"); }
    else if (!rec.empty()) { CK("A03 A06", p != nullptr, "a recycled block was available but the request was refused"); CK("A06", g_ev.empty(), "the underlying allocator was asked although a recycled block was available"); CK("A06", rec.count(p), "a block was given out that is neither recycled nor new"); }
    else { check_event('a', Max, "a new block of Max bytes was not asked for exactly once"); if (!g_ev.empty()) CK("A03 A06 A12", p == g_ev[0].p, "the answer of the underlying allocator was not returned"); }
    if (p) { for (auto& l : live) if (l.p == p) fail("a block in use was given out again"); if (!g_live.count(p)) fail("a block was given out that the underlying allocator has not handed out"); rec.erase(p); paint(p, Max, tag); live.push_back({p, n, tag}); tag = tag * 5 + 3; }
    g_failnext[me] = 0; };
  auto release = [&](size_t i) { Live l = live[i]; live.erase(live.begin() + i); step("deallocate(%p, %llu)", l.p, (unsigned long long)l.n); CK("A06", painted(l.p, Max, l.b), "the contents of a block in use were disturbed"); g_ev.clear(); f->deallocate(l.p, l.n); CK("A06", g_ev.empty(), "the underlying allocator was asked when a block was handed back"); rec.insert(l.p); };
  auto moved = [&] {
    if (chance(50)) { step("move construct"); g_ev.clear(); std::unique_ptr<F> g(new F(std::move(*f))); CK("A06", g_ev.empty(), "moving asked the underlying allocator"); if (chance(50)) std::swap(f, g), g.swap(f); g_ev.clear(); f.reset(); CK("A06", g_ev.empty(), "the source of a move kept blocks"); f = std::move(g); }
    else { step("move assign"); std::unique_ptr<F> g(new F(RA(other))); int k = below(4); std::vector<char*> o; for (int i = 0; i < k; i++) { char* p = (char*)g->allocate(Max); if (p) o.push_back(p); } std::vector<char*> keep; for (char* p : o) if (chance(70)) g->deallocate(p, Max); else keep.push_back(p);
      *g = std::move(*f); CK("A06", rec_held(other) == keep.size(), "assigning over a freelist with %zu recycled blocks left %lld with the allocator", o.size() - keep.size(), (long long)(rec_held(other) - keep.size())); for (char* p : keep) rec_free(other, p, Max); g_ev.clear(); f.reset(); CK("A06", g_ev.empty(), "the source of a move kept blocks"); f = std::move(g); }
  };
  auto eqs = [&] { CK("A13", *f == *f && !(*f != *f), "a freelist differs from itself"); F g{RA(other)}; CK("A13", (*f == g) == (g == *f) && (*f != g) == !(*f == g), "equality of freelists is not coherent"); CK("A13", !(*f == g), "freelists over different allocators are equal"); };
  for (int i = 0; i < len; i++) { u64 k = below(20); if (k < 9) alloc(chance(80) ? Min + 1 + below(Max - Min) : size_near({Min, Max})); else if (k < 17) { if (!live.empty()) release(chance(50) ? live.size() - 1 : below(live.size())); } else if (k < 18) moved(); else if (k == 18) eqs(); else { void* p = live.empty() ? nullptr : live[0].p; if constexpr (std::is_same_v<RA, Rec>) { CK("A04 A12", f->owns(p) == rec_owns(me, p), "owns differs from the underlying allocator"); CK("A12", f->max_size() == f->get_allocator().max_size(), "max_size differs"); if (p && live[0].n >= 8 && Max >= sizeof(Counted)) { i64 a = Counted::alive, m = Counted::made; g_ev.clear(); f->construct((Counted*)p, (u64)7); CK("A12", calls('c') == 1 && call('c')->p == p && Counted::made == m + 1 && ((Counted*)p)->v == 7, "construct does not reach the underlying allocator once"); g_ev.clear(); f->destroy((Counted*)p); CK("A12", calls('x') == 1 && Counted::alive == a, "destroy does not reach the underlying allocator once"); paint(p, Max, live[0].b); } } } intact(); }
  bool early = chance(50); if (!early) while (!live.empty()) release(below(live.size()));
  step("destroy"); u64 held = rec_held(me); f.reset(); CK("A06", rec_held(me) == live.size(), "destroying a freelist with %zu recycled blocks returned %lld", rec.size(), (long long)(held - rec_held(me)));
  for (auto& l : live) { CK("A06", painted(l.p, Max, l.b), "the contents of a block in use were disturbed"); rec_free(me, l.p, Max); }
}
TEST("freelist 0,16", (history<0, 16, Rec>())) TEST("freelist 8,16", (history<8, 16, RecMin>())) TEST("freelist 16,64", (history<16, 64, Rec>())) TEST("freelist 0,8", (history<0, 8, RecMin>())) TEST("freelist 64,1000", (history<64, 1000, RecMin>())) TEST("freelist 15,17", (history<15, 17, Rec>()))
}
