#pragma once
#include "drv.h"
#include "ktl/containers/binary_heap.h"
#include "vec_drv.h"
namespace hpd {
using vcd::g_nullzero; using vcd::g_default;
// an element with its own resource that knows whether it lives
struct El { static std::set<const void*> alive; static i64 made, died; int key, tag; int* res; u64 magic;
  void born() { if (!alive.insert(this).second) { if (active("C06")) fail("an object is constructed where one is alive"); } made++; magic = 0x11223344; }
  void ok(const char* what) const { if (!alive.count(this) || magic != 0x11223344) fail("%s an object that is not alive", what); }
  El(int k, int t) : key(k), tag(t), res(new int(k)) { born(); } El(const El& o) : key(o.key), tag(o.tag) { o.ok("copying from"); res = o.res ? new int(*o.res) : nullptr; born(); } El(El&& o) noexcept : key(o.key), tag(o.tag) { o.ok("moving from"); res = o.res; o.res = nullptr; born(); }
  El& operator=(const El& o) { ok("assigning to"); o.ok("copying from"); if (this != &o) { key = o.key; tag = o.tag; delete res; res = o.res ? new int(*o.res) : nullptr; } return *this; } El& operator=(El&& o) noexcept { ok("assigning to"); o.ok("moving from"); if (this != &o) { key = o.key; tag = o.tag; delete res; res = o.res; o.res = nullptr; } return *this; }
  ~El() { ok("destroying"); alive.erase(this); died++; delete res; magic = 0; res = nullptr; }
  bool operator==(const El& o) const { ok("comparing"); o.ok("comparing"); return key == o.key && tag == o.tag; } };
std::set<const void*> El::alive; i64 El::made = 0, El::died = 0;
static int g_dir = 1, g_mask = ~0;
// a comparison with state: direction and the part of the key that counts
struct Cmp { int dir = g_dir; int mask = g_mask; bool operator()(const El& a, const El& b) const { a.ok("comparing"); b.ok("comparing"); int x = a.key & mask, y = b.key & mask; return dir > 0 ? x < y : x > y; } };
typedef std::multiset<std::pair<int, int>> M;
static void history() {
  typedef vcd::TA<El> A; typedef ktl::binary_heap<El, Cmp, A> H; rec_reset(); live_reset(); El::alive.clear(); g_nullzero = chance(50); g_default = 1; g_dir = chance(50) ? 1 : -1; g_mask = chance(60) ? ~0 : chance(50) ? 3 : 0; std::vector<std::pair<std::unique_ptr<H>, M>> hs; std::vector<int> ids; int len = 5 + below(70), range = chance(50) ? 4 : 60, ntag = 0; std::vector<Cmp> cs;
  step("direction %d, key mask %d", g_dir, g_mask);
  auto any = [&] { return std::pair<int, int>(below(range), chance(20) ? 0 : ++ntag); };
  auto make = [&] { int id = 1 + below(3); M m; H* h; int k = below(6); Cmp c0; bool dc = chance(40); if (!dc) { c0.dir = chance(50) ? 1 : -1; c0.mask = chance(60) ? ~0 : chance(50) ? 3 : 0; } u64 n = below(12); std::vector<El> l; if (k >= 4) for (u64 i = 0; i < n; i++) { auto e = any(); l.emplace_back(e.first, e.second); m.insert(e); }
    step("heap %zu: construct %d with %llu, allocator %d, direction %d, mask %d", hs.size(), k, (unsigned long long)n, id, c0.dir, c0.mask); switch (k) { case 0: h = dc ? new H() : new H(c0); id = 1; break; case 1: h = dc ? new H(A(id)) : new H(A(id), c0); break; case 2: h = dc ? new H((size_t)n) : new H((size_t)n, c0); id = 1; CK("C02 C05", h->capacity() >= n, "capacity %zu of %llu", (size_t)h->capacity(), (unsigned long long)n); break; case 3: h = dc ? new H((size_t)n, A(id)) : new H((size_t)n, A(id), c0); break; case 4: h = dc ? new H(vcd::ilist(l)) : new H(vcd::ilist(l), c0); id = 1; break; default: h = dc ? new H(vcd::ilist(l), A(id)) : new H(vcd::ilist(l), A(id), c0); }
    hs.push_back({std::unique_ptr<H>(h), m}); ids.push_back(id); cs.push_back(c0); };
  auto check = [&](const char* tags) { size_t i = 0, total = 0; std::set<char*> held; for (auto& p : hs) { H& h = *p.first; const H& c = h; M& m = p.second; Cmp cmp = cs[i]; total += m.size();
      CK("C05 C07", c.size() == m.size() && c.empty() == m.empty(), "heap %zu has %zu elements instead of %zu", i, (size_t)c.size(), m.size()); M now; if (c.size() < 100000) for (auto it = c.begin(); it != c.end(); ++it) { it->ok("holding"); if (!it->res || *it->res != it->key) CK("C06 C05", false, "heap %zu holds a moved-from element", i); now.insert({it->key, it->tag}); }
      CK(tags, now == m, "the elements of heap %zu are not those inserted and not yet removed", i);
      if (!m.empty()) { El& top = h.peek(); CK("C05", &top == h.begin(), "peek is not the root"); for (auto it = c.begin(); it != c.end(); ++it) CK("C05", !cmp(*it, top), "heap %zu offers %d although %d should precede it", i, top.key, it->key); CK("C05", (size_t)(c.rend() - c.rbegin()) == m.size() && c.data() == c.begin(), "iterators do not span the elements"); }
      CK("C02", c.capacity() >= c.size(), "capacity below size"); if (c.capacity()) { auto it = g_live.find((char*)c.data()); if (it == g_live.end()) fail("the storage of heap %zu is not held from an allocator", i); CK("C02", it->second.n >= c.capacity() * sizeof(El), "the storage of heap %zu holds %llu bytes, its capacity is %zu elements", i, (unsigned long long)it->second.n, (size_t)c.capacity()); CK("C02 C07", it->second.owner == ids[i], "the storage of heap %zu is of allocator %d instead of %d", i, it->second.owner, ids[i]); } if (c.data()) held.insert((char*)c.data()); i++; }
    CK("C02", held.size() == g_live.size(), "%zu storage blocks are held for %zu heaps that have one", g_live.size(), held.size()); CK("C06", El::alive.size() == total, "%zu objects are alive but the heaps hold %zu elements", El::alive.size(), total); };
  make();
  for (int s = 0; s < len; s++) {
    if (hs.empty()) make(); size_t a = below(hs.size()), b = below(hs.size()); H* h = hs[a].first.get(); M& m = hs[a].second; const char* tags = "C05"; u64 k = below(26);
    if (k < 8) { auto e = any(); El* it; step("%zu.insert(%d/%d)", a, e.first, e.second); if (chance(50)) { El x(e.first, e.second); it = h->insert(x); } else it = h->insert(El(e.first, e.second)); m.insert(e); CK("C05", it >= h->begin() && it < h->end() && it->key == e.first && it->tag == e.second, "insert does not return the position of the inserted element"); }
    else if (k < 10) { if (!m.empty()) { size_t i = below(h->size()); El& own = h->begin()[i]; std::pair<int, int> e(own.key, own.tag); step("%zu.insert(own %zu)", a, i); El* it = h->insert((const El&)own); m.insert(e); CK("C05", it >= h->begin() && it < h->end() && it->key == e.first && it->tag == e.second, "insert does not return the position of the inserted element"); } }
    else if (k < 17) { if (!m.empty()) { step("%zu.pop", a); { std::vector<std::pair<int, int>> all(m.begin(), m.end()); El r = h->pop(); r.ok("returning"); auto it = m.find({r.key, r.tag}); CK("C05", it != m.end(), "pop returns an element that was not in the heap"); if (it != m.end()) m.erase(it); Cmp c2 = cs[a]; for (auto& x : all) { int p = x.first & c2.mask, q = r.key & c2.mask; CK("C05", !(c2.dir > 0 ? p < q : p > q), "pop removes %d although %d should precede it", r.key, x.first); } CK("C06 C05", r.res && *r.res == r.key, "pop returns a moved-from element"); } } }
    else if (k == 17) { auto e = any(); if (!m.empty() && chance(60)) { auto it = m.begin(); std::advance(it, below(m.size())); e = *it; } { El x(e.first, e.second); step("%zu.find(%d/%d)", a, e.first, e.second); auto it = h->find(x); bool in = m.count(e); CK("C05", (it != h->end()) == in, "find %s", in ? "misses an element" : "finds an element that is not there"); if (in) CK("C05", it >= h->begin() && it < h->end() && *it == x, "find returns another element"); } }
    else if (k == 18) { u64 r = below(30); step("%zu.reserve(%llu)", a, (unsigned long long)r); h->reserve(r); CK("C02 C05", h->capacity() >= r, "reserve(%llu) leaves capacity %zu", (unsigned long long)r, (size_t)h->capacity()); }
    else if (k == 19) { if (chance(50)) { step("%zu.clear", a); h->clear(); m.clear(); } }
    else if (k == 20) { tags = "C07"; H* c; int id = ids[a]; if (chance(50)) { step("%zu: copy of %zu", hs.size(), a); c = new H((const H&)*h); } else { id = 1 + below(3); step("%zu: copy of %zu with allocator %d", hs.size(), a, id); c = new H((const H&)*h, A(id)); } M x = m; hs.push_back({std::unique_ptr<H>(c), x}); ids.push_back(id); { Cmp cx = cs[a]; cs.push_back(cx); } }
    else if (k == 21) { tags = "C07"; H* c; int id = ids[a]; if (chance(50)) { step("%zu: moved from %zu", hs.size(), a); c = new H(std::move(*h)); } else { id = 1 + below(3); step("%zu: moved from %zu with allocator %d", hs.size(), a, id); c = new H(std::move(*h), A(id)); } M x = m; m.clear(); hs.push_back({std::unique_ptr<H>(c), x}); ids.push_back(id); { Cmp cx = cs[a]; cs.push_back(cx); } }
    else if (k == 22) { tags = "C07"; step("%zu = %zu", a, b); *h = (const H&)*hs[b].first; M x = hs[b].second; hs[a].second = x; ids[a] = ids[b]; cs[a] = cs[b]; }
    else if (k == 23) { tags = "C07"; step("%zu = move(%zu)", a, b); *h = std::move(*hs[b].first); if (a != b) { hs[a].second = hs[b].second; hs[b].second.clear(); ids[a] = ids[b]; cs[a] = cs[b]; } }
    else if (k == 24) { step("drop %zu", a); hs.erase(hs.begin() + a); ids.erase(ids.begin() + a); cs.erase(cs.begin() + a); }
    else make();
    check(tags[2] == '7' ? "C05 C07" : "C05");
    if (hs.size() > 6) { step("drop 0"); hs.erase(hs.begin()); ids.erase(ids.begin()); cs.erase(cs.begin()); }
  }
  while (!hs.empty()) { H& h = *hs.back().first; M& m = hs.back().second; Cmp cmp = cs[hs.size() - 1]; if (chance(50)) { step("pop all of %zu", hs.size() - 1); bool first = true; int last = 0; while (!m.empty() && h.size()) { El r = h.pop(); int x = r.key & cmp.mask; CK("C05", first || !(cmp.dir > 0 ? x < last : x > last), "elements are popped out of order"); first = false; last = x; auto it = m.find({r.key, r.tag}); CK("C05", it != m.end(), "pop returns an element that was not in the heap"); if (it != m.end()) m.erase(it); } } step("drop"); hs.pop_back(); ids.pop_back(); if (!hs.empty()) check("C05"); }
  CK("C06", El::alive.empty(), "%zu objects were never destroyed", El::alive.size()); CK("C02", g_live.empty(), "%zu storage blocks were not returned", g_live.size());
}
TEST("heap", history()) TEST("heap ", history())
}
