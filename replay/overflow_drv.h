#pragma once
#include "drv.h"
#include "ktl/allocators/overflow.h"
namespace ovd {
struct Live { char* p; u64 n; unsigned char b; i64 lo, hi; };   // lo/hi: furthest changed guard byte
static bool has(const std::string& s, const char* w) { return s.find(w) != std::string::npos; }
// the integers written in the text
static std::vector<u64> numbers(const std::string& s) { std::vector<u64> v; size_t i = 0; while (i < s.size()) { if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') { char* e; v.push_back(strtoull(s.c_str() + i, &e, 16)); i = e - s.c_str(); } else if (isdigit(s[i])) { char* e; v.push_back(strtoull(s.c_str() + i, &e, 10)); i = e - s.c_str(); } else i++; } return v; }
static bool num(const std::string& s, u64 x) { auto v = numbers(s); return std::find(v.begin(), v.end(), x) != v.end(); }
template<class RA> static void history() {
  typedef ktl::overflow<RA, std::ostringstream> O; rec_reset(); live_reset(); std::ostringstream out; int me = 1; std::unique_ptr<O> o(chance(50) && false ? new O(out) : new O(out, RA(me))); std::vector<Live> live; i64 bytes = 0, cons = 0; unsigned char tag = 1; int len = 3 + below(30); bool evil = chance(30);
  CK("A08 A09", out.str().empty(), "creating the allocator wrote something");
  auto alloc = [&](u64 n) {
    if (chance(20)) g_failnext[me] = 1; bool f = g_failnext[me] > 0; g_ev.clear(); char* p = (char*)o->allocate(n); step("allocate(%llu) = %p%s", (unsigned long long)n, p, f ? " (underlying failure)" : ""); g_failnext[me] = 0;
    CK("A08 A09", out.str().empty(), "allocating wrote: %s", out.str().c_str());
    if (!p) { CK("A03 A08", f || n > g_maxserve - 128, "a request the underlying allocator can serve was refused"); CK("A03", rec_held(me) == live.size(), "a refused request kept memory"); return; }
    CK("A03 A08", calls('a') == 1, "the underlying allocator was asked %u times", calls('a')); char* b = (char*)g_ev[0].p; u64 m = g_ev[0].n; if (!b || n > m) fail("allocate(%llu) was served from %llu bytes", (unsigned long long)n, (unsigned long long)m);
    CK("A03 A08", p >= b + 64 && p + n + 64 <= b + m, "the block and its guards [%lld, %lld) are not inside the %llu bytes obtained", (long long)(p - b) - 64, (long long)(p - b + n + 64), (unsigned long long)m); if (p < b + 64 || p + n + 64 > b + m) fail("guards outside the block");
    CK("A08", ((u64)(p - b) & 15) == 0, "the block is not aligned"); paint(p, n, tag); live.push_back({p, n, tag, 0, 0}); tag = tag * 5 + 3; bytes += n; };
  auto hit = [&] { if (live.empty()) return; Live& l = live[below(live.size())]; i64 d = 1 + below(chance(50) ? 64 : 3); if (chance(30)) d = 64; bool before = chance(50); char* at = before ? l.p - d : l.p + l.n + d - 1; unsigned char old = *at, nw; if (chance(50)) nw = old ^ (1 << below(8)); else nw = rnd(); if (nw == old) return; *at = nw; step("byte at %s%lld of %p: %02x -> %02x", before ? "-" : "end+", (long long)d - !before, l.p, old, nw); };
  // the guards as they were right after allocation are not observable in general, so remember them
  std::map<char*, std::string> guards; auto remember = [&] { for (auto& l : live) if (!guards.count(l.p)) guards[l.p] = std::string(l.p - 64, 64) + std::string(l.p + l.n, 64); };
  auto release = [&](size_t i) {
    Live l = live[i]; live.erase(live.begin() + i); std::string g = guards[l.p]; guards.erase(l.p); u64 lo = 0, hi = 0; for (int k = 1; k <= 64; k++) { if (*(l.p - k) != g[64 - k]) lo = k; if (*(l.p + l.n + k - 1) != g[64 + k - 1]) hi = k; }
    CK("A08", painted(l.p, l.n, l.b), "the contents of a block were disturbed"); g_ev.clear(); out.str(""); step("deallocate(%p, %llu)", l.p, (unsigned long long)l.n); o->deallocate(l.p, l.n); std::string s = out.str(); out.str(""); bytes -= l.n;
    CK("A08", has(s, "CORRUPTION") == (lo || hi), lo || hi ? "changed guard bytes were not reported" : "corruption was reported although no guard byte changed: %s", s.c_str()); CK("A08", (lo || hi) || s.empty(), "returning an intact block wrote: %s", s.c_str());
    if (lo || hi) { char w[60]; CK("A08", num(s, (u64)l.p) && num(s, l.n), "the report does not state address and size: %s", s.c_str()); snprintf(w, sizeof w, "Before (%llu bytes)", (unsigned long long)lo); CK("A08", has(s, "Before") == (lo != 0) && (!lo || has(s, w)), "the report states the wrong extent before (should be %llu): %s", (unsigned long long)lo, s.c_str()); snprintf(w, sizeof w, "After (%llu bytes)", (unsigned long long)hi); CK("A08", has(s, "After") == (hi != 0) && (!hi || has(s, w)), "the report states the wrong extent after (should be %llu): %s", (unsigned long long)hi, s.c_str()); }
    CK("A08", calls('d') == 1 && g_ev.size() == 1, "the memory was not given back exactly once"); };
  for (int i = 0; i < len; i++) { u64 k = below(16); if (k < 6) alloc(size_near({64, 1000, g_maxserve - 128})); else if (k < 9) { remember(); hit(); } else if (k < 13) { remember(); if (!live.empty()) release(below(live.size())); }
    else if (k < 15) { for (auto& l : live) if (l.n >= sizeof(Counted)) { i64 a = Counted::alive, m = Counted::made; g_ev.clear(); int times = evil ? 1 + below(2) : 1; bool both = !evil || chance(50); if (chance(50) || !evil) { for (int t = 0; t < times; t++) { o->construct((Counted*)l.p, (u64)4); cons++; } step("construct x%d", times); CK("A12", Counted::made == m + times && Counted::alive == a + times && ((Counted*)l.p)->v == 4, "construct did not make the object once"); if (std::is_same_v<RA, Rec>) CK("A12", calls('c') == (unsigned)times, "construct did not reach the underlying allocator once"); a = Counted::alive; if (both) { g_ev.clear(); o->destroy((Counted*)l.p); cons--; step("destroy"); CK("A12", Counted::alive == a - 1, "destroy did not destroy the object once"); if (std::is_same_v<RA, Rec>) CK("A12", calls('x') == 1, "destroy did not reach the underlying allocator once"); } } else { o->destroy((Counted*)l.p); cons--; step("destroy"); } paint(l.p, l.n, l.b); Counted::alive = 0; break; } }
    else if constexpr (std::is_same_v<RA, Rec>) { char* p = live.empty() ? nullptr : live[0].p; CK("A04 A12", o->owns(p) == rec_owns(me, p), "owns differs from the underlying allocator"); CK("A13", *o == *o && !(*o != *o), "an allocator differs from itself"); O x(out, RA(me + (int)below(2))); CK("A13", (*o == x) == (o->get_allocator() == x.get_allocator()) && (*o != x) == !(*o == x) && (x == *o) == (*o == x), "equality differs from the underlying allocators'"); }
    remember(); }
  bool leak = evil; if (!leak || chance(50)) while (!live.empty()) release(below(live.size()));
  if (chance(25)) { step("move"); std::unique_ptr<O> n(new O(std::move(*o))); out.str(""); o.reset(); CK("A09", out.str().empty(), "destroying the source of a move wrote: %s", out.str().c_str()); o = std::move(n); }
  out.str(""); step("destroy with %lld bytes and %lld constructions outstanding", (long long)bytes, (long long)cons); g_ev.clear(); o.reset(); std::string s = out.str();
  CK("A09", g_ev.empty(), "destroying the allocator asked the underlying allocator"); CK("A09", has(s, "LEAK") == (bytes != 0), bytes ? "a leak of %lld bytes is not reported" : "a leak is reported for a balanced history (%lld): %s", (long long)bytes, s.c_str()); CK("A09", has(s, "LOGIC") == (cons != 0), cons ? "an imbalance of %lld is not reported" : "an imbalance is reported for a balanced history (%lld): %s", (long long)cons, s.c_str());
  if (bytes) { CK("A09", has(s, "Allocated memory") == (bytes > 0) && has(s, "Too many frees") == (bytes < 0), "the leak report has the wrong direction: %s", s.c_str()); CK("A09", num(s, bytes < 0 ? -bytes : bytes), "the leak report does not state %lld bytes: %s", (long long)bytes, s.c_str()); }
  if (cons) { CK("A09", has(s, "constructor calls") == (cons > 0) && has(s, "destructor calls") == (cons < 0), "the imbalance report has the wrong direction: %s", s.c_str()); CK("A09", num(s, cons < 0 ? -cons : cons), "the imbalance report does not state %lld: %s", (long long)cons, s.c_str()); }
  if (!bytes && !cons) CK("A09", s.empty(), "a balanced history wrote: %s", s.c_str());
  for (auto& l : live) { auto it = g_live.upper_bound(l.p); --it; free(it->first); g_live.erase(it); }
}
// returned with another size than allocated: the balance differs and is reported with its direction
template<class RA> static void unbalanced() {
  typedef ktl::overflow<RA, std::ostringstream> O; rec_reset(); live_reset(); std::ostringstream out; { O o(out, RA(1)); u64 n = 1 + below(100); char* p = (char*)o.allocate(n); if (!p) return; u64 m = 1 + below(n); g_live.begin()->second.n = m + 128; step("allocate(%llu), deallocate with %llu", (unsigned long long)n, (unsigned long long)m); o.deallocate(p, m); out.str("");
    std::unique_ptr<O> q(new O(std::move(o))); q.reset(); std::string s = out.str(); i64 d = (i64)n - (i64)m; CK("A09", has(s, "LEAK") == (d != 0), "the report does not fit a balance of %lld: %s", (long long)d, s.c_str()); if (d) CK("A09", has(s, "Allocated memory") && num(s, d), "the report does not state %lld: %s", (long long)d, s.c_str()); out.str(""); }
  CK("A09", out.str().empty(), "the source of a move reported: %s", out.str().c_str());
  { std::ostringstream o2; u64 n = 1 + below(50), k = 1 + below(50); { std::ostringstream o1; O* a = new O(o1, RA(1)); char* p = (char*)a->allocate(n); g_live.begin()->second.n = n + k + 128; char* big = (char*)realloc(g_live.begin()->first, n + k + 128); Blk b = g_live.begin()->second; g_live.clear(); g_live[big] = b; a->deallocate(big + 64, n + k); o1.str(""); step("allocate(%llu), deallocate with %llu", (unsigned long long)n, (unsigned long long)(n + k)); delete a; std::string s = o1.str(); CK("A09", has(s, "Too many frees") && num(s, k), "the report does not state %llu bytes returned too often: %s", (unsigned long long)k, s.c_str()); } }
}
TEST("overflow", history<Rec>()) TEST("overflow over a minimal allocator", history<RecMin>()) TEST("overflow, wrong sizes", unbalanced<Rec>())
}
