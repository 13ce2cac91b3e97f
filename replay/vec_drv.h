#pragma once
#include "drv.h"
#include "ktl/containers/trivial_vector.h"
#include "ktl/containers/trivial_array.h"
namespace vcd {
static bool g_nullzero = false; static int g_default = 1;
template<class T> struct TA { typedef T value_type; int id; TA() noexcept : id(g_default) {} explicit TA(int i) noexcept : id(i) {} template<class U> TA(const TA<U>& o) noexcept : id(o.id) {}
  bool operator==(const TA& r) const noexcept { return id == r.id; } bool operator!=(const TA& r) const noexcept { return id != r.id; }
  T* allocate(size_t n) noexcept { if (n == 0 && g_nullzero) return nullptr; if (n > (1u << 24) / sizeof(T)) fail("a container asked for %zu elements", n); g_maxserve = ~(u64)0 >> 1; return (T*)rec_alloc(id, n * sizeof(T)); } void deallocate(T* p, size_t n) noexcept { rec_free(id, p, n * sizeof(T)); } };
template<int N> struct Bytes { unsigned char b[N]; }; struct Words { uint32_t a, b, c; };
template<class T> T any() { T t; unsigned char* p = (unsigned char*)&t; for (size_t i = 0; i < sizeof(T); i++) p[i] = rnd(); return t; }
template<class T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template<class T> std::vector<T> some(u64 n) { std::vector<T> v; for (u64 i = 0; i < n; i++) v.push_back(any<T>()); return v; }
template<class T> std::initializer_list<T> ilist(const std::vector<T>& v) { struct Raw { const T* p; size_t n; } r{v.data(), v.size()}; std::initializer_list<T> l; static_assert(sizeof l == sizeof r, ""); memcpy(&l, &r, sizeof l); return l; }
// contents and accessors
template<class C, class T> void equal(const char* tags, C& x, const std::vector<T>& m, const char* what) {
  const C& c = x; CK(tags, c.size() == m.size(), "%s: size is %zu instead of %zu", what, (size_t)c.size(), m.size()); if (c.size() != m.size()) return; CK(tags, c.empty() == m.empty(), "%s: empty() is wrong", what);
  for (size_t i = 0; i < m.size(); i++) { CK(tags, same<T>(c[i], m[i]) && same<T>(x[i], m[i]) && same<T>(c.at(i), m[i]) && same<T>(c.data()[i], m[i]) && same<T>(x.data()[i], m[i]) && same<T>(c.begin()[i], m[i]) && same<T>(x.begin()[i], m[i]), "%s: element %zu of %zu is wrong", what, i, m.size()); CK(tags, same<T>(c.rbegin()[i], m[m.size() - 1 - i]) && same<T>(x.rbegin()[i], m[m.size() - 1 - i]), "%s: element %zu in reverse is wrong", what, i); }
  CK(tags, (size_t)(c.end() - c.begin()) == m.size() && (size_t)(x.end() - x.begin()) == m.size() && (size_t)(c.rend() - c.rbegin()) == m.size() && (size_t)(x.rend() - x.rbegin()) == m.size(), "%s: iterators do not span the elements", what); }
static u64 storage(int id) { u64 b = 0; for (auto& l : g_live) if (l.second.owner == id) b += l.second.n; return b; }
template<class T> void vec() {
  typedef TA<T> A; typedef ktl::trivial_vector<T, A> V; rec_reset(); live_reset(); g_nullzero = chance(50); g_default = 1; typedef std::vector<T> M; std::vector<std::pair<std::unique_ptr<V>, M>> vs; std::vector<int> ids; int len = 4 + below(50);
  auto L = [&] { return chance(30) ? below(3) : below(20); };
  auto make = [&] { int id = 1 + below(3); u64 n = L(); M m; V* v; int k = below(7);
    switch (k) { case 0: v = new V(); id = 1; break; case 1: v = new V(A(id)); break; case 2: { v = new V((size_t)n, A(id)); CK("C01", v->size() == n, "constructed with %llu elements, has %zu", (unsigned long long)n, v->size()); for (size_t i = 0; i < v->size(); i++) { m.push_back(any<T>()); (*v)[i] = m[i]; } break; } case 3: { T t = any<T>(); v = new V((size_t)n, t, A(id)); m.assign(n, t); break; } case 4: { m = some<T>(n); v = new V(ilist(m), A(id)); break; } default: { m = some<T>(n); v = new V((const T*)m.data(), (const T*)m.data() + n, A(id)); } }
    step("vector %zu: construct %d, %zu elements, allocator %d", vs.size(), k, m.size(), id); vs.push_back({std::unique_ptr<V>(v), m}); ids.push_back(id); };
  auto check = [&](const char* tags, const char* what) { std::map<int, u64> want; size_t i = 0; for (auto& p : vs) { equal(tags, *p.first, p.second, what); V& v = *p.first; CK("C02 C01", v.capacity() >= v.size(), "capacity %zu is below the size %zu", (size_t)v.capacity(), (size_t)v.size()); if (v.capacity() == 0) { CK("C02", v.data() == nullptr || g_live.count((char*)v.data()), "storage is not held"); } else { auto it = g_live.find((char*)v.data()); if (it == g_live.end()) fail("the storage of vector %zu is not held from an allocator", i); CK("C02", it->second.n >= v.capacity() * sizeof(T), "the storage of vector %zu holds %llu bytes, its capacity is %zu elements", i, (unsigned long long)it->second.n, (size_t)v.capacity()); CK("C02 C07", it->second.owner == ids[i], "the storage of vector %zu is of allocator %d instead of %d", i, it->second.owner, ids[i]); } i++; }
    std::set<char*> held; for (auto& p : vs) if (p.first->data()) held.insert((char*)p.first->data()); CK("C02", held.size() == g_live.size(), "%zu storage blocks are held for %zu vectors that have one", g_live.size(), held.size()); };
  make();
  for (int s = 0; s < len; s++) {
    if (vs.empty()) make(); size_t a = below(vs.size()), b = below(vs.size()); V* v = vs[a].first.get(); M& m = vs[a].second; size_t n = m.size(); const char* tags = "C01"; u64 k = below(26);
    switch (k) {
      case 0: make(); break;
      case 1: case 2: { T t = any<T>(); step("%zu.push_back(value)", a); auto it = v->push_back((const T&)t); m.push_back(t); CK("C01", it == v->begin() + n, "push_back returns the wrong position"); break; }
      case 3: { T t = any<T>(), c = t; step("%zu.push_back(move)", a); auto it = v->push_back(std::move(c)); m.push_back(t); CK("C01", it == v->begin() + n, "push_back returns the wrong position"); break; }
      case 4: if (n) { size_t i = below(n); step("%zu.push_back(own %zu)", a, i); T t = m[i]; auto it = v->push_back((const T&)(*v)[i]); m.push_back(t); CK("C01", it == v->begin() + n, "push_back returns the wrong position"); } break;
      case 5: if (n) { size_t i = below(n); step("%zu.push_back(move own %zu)", a, i); T t = m[i]; v->push_back(std::move((*v)[i])); m.push_back(t); } break;
      case 6: { T t = any<T>(); step("%zu.emplace_back", a); auto it = v->emplace_back(t); m.push_back(t); CK("C01", it == v->begin() + n, "emplace_back returns the wrong position"); break; }
      case 7: if (n) { size_t i = below(n); step("%zu.emplace_back(own %zu)", a, i); T t = m[i]; v->emplace_back((*v)[i]); m.push_back(t); } break;
      case 8: case 9: { M x = some<T>(L()); step("%zu.push_back(%zu elements)", a, x.size()); auto it = v->push_back((const T*)x.data(), (const T*)x.data() + x.size()); m.insert(m.end(), x.begin(), x.end()); CK("C01", it == v->begin() + n, "push_back of a range returns position %lld instead of %zu", (long long)(it - v->begin()), n); break; }
      case 10: if (n) { size_t i = below(n), j = i + below(n - i + 1); step("%zu.push_back(own [%zu,%zu))", a, i, j); M x(m.begin() + i, m.begin() + j); v->push_back((const T*)v->data() + i, (const T*)v->data() + j); m.insert(m.end(), x.begin(), x.end()); } break;
      case 11: case 12: { size_t i = chance(20) ? n : below(n + 1); T t = any<T>(); step("%zu.emplace(%zu)", a, i); v->emplace(v->begin() + i, t); m.insert(m.begin() + i, t); break; }
      case 13: if (n) { size_t i = below(n + 1), j = below(n); T t = m[j]; step("%zu.emplace(%zu, own %zu)", a, i, j); v->emplace(v->begin() + i, (*v)[j]); m.insert(m.begin() + i, t); } break;
      case 14: if (n) { size_t i = chance(20) ? n - 1 : below(n); step("%zu.erase(%zu)", a, i); auto it = v->erase(v->begin() + i); m.erase(m.begin() + i); CK("C01", it == v->begin() + i, "erase returns the wrong position"); } break;
      case 15: { size_t i = below(n + 1), j = i + below(n - i + 1); step("%zu.erase(%zu,%zu)", a, i, j); auto it = v->erase(v->begin() + i, v->begin() + j); m.erase(m.begin() + i, m.begin() + j); CK("C01", it == v->begin() + i, "erase returns the wrong position"); break; }
      case 16: if (n) { step("%zu.pop_back", a); T t = v->pop_back(); CK("C01", same(t, m.back()), "pop_back returns the wrong element"); m.pop_back(); } break;
      case 17: if (chance(50)) { step("%zu.clear", a); size_t c = v->capacity(); v->clear(); m.clear(); } break;
      case 18: { u64 r = chance(20) ? n : chance(20) && n ? n - 1 : below(30); step("%zu.resize(%llu)", a, (unsigned long long)r); v->resize(r); CK("C01", v->size() == r, "resize(%llu) leaves size %zu", (unsigned long long)r, (size_t)v->size()); while (m.size() > r) m.pop_back(); for (size_t i = m.size(); i < r && i < v->size(); i++) { m.push_back(any<T>()); (*v)[i] = m[i]; } break; }
      case 19: { u64 r = below(40); step("%zu.reserve(%llu)", a, (unsigned long long)r); v->reserve(r); CK("C01 C02", v->capacity() >= r, "reserve(%llu) leaves capacity %zu", (unsigned long long)r, (size_t)v->capacity()); break; }
      case 20: { tags = "C07"; V* c; int id = ids[a]; if (chance(50)) { step("%zu: copy of %zu", vs.size(), a); c = new V((const V&)*v); } else { id = 1 + below(3); step("%zu: copy of %zu with allocator %d", vs.size(), a, id); c = new V((const V&)*v, A(id)); } M x = m; CK("C07", c->data() != v->data() || c->size() == 0, "a copy shares storage"); vs.push_back({std::unique_ptr<V>(c), x}); ids.push_back(id); break; }
      case 21: { tags = "C07"; V* c; int id = ids[a]; if (chance(50)) { step("%zu: moved from %zu", vs.size(), a); c = new V(std::move(*v)); } else { id = 1 + below(3); step("%zu: moved from %zu with allocator %d", vs.size(), a, id); c = new V(std::move(*v), A(id)); } M x = m; m.clear(); vs.push_back({std::unique_ptr<V>(c), x}); ids.push_back(id); CK("C07", vs[a].first->size() == 0 && vs[a].first->empty(), "the source of a move is not empty"); break; }
      case 22: { tags = "C07"; step("%zu = %zu", a, b); *v = (const V&)*vs[b].first; M x = vs[b].second; vs[a].second = x; ids[a] = ids[b]; break; }
      case 23: { tags = "C07"; step("%zu = move(%zu)", a, b); *v = std::move(*vs[b].first); if (a != b) { vs[a].second = vs[b].second; vs[b].second.clear(); ids[a] = ids[b]; } break; }
      case 24: { step("drop %zu", a); vs.erase(vs.begin() + a); ids.erase(ids.begin() + a); break; }
      default: if (n) { size_t i = below(n); T t = any<T>(); step("%zu[%zu] = value", a, i); if (chance(50)) (*v)[i] = t; else v->at(i) = t; m[i] = t; tags = "C01 C07"; } }
    check(k >= 20 && k <= 23 ? "C07" : k == 25 ? "C01 C07" : "C01", k >= 20 && k <= 23 ? "after copy or move" : "afterwards");
  }
  vs.clear(); CK("C02", g_live.empty(), "%zu storage blocks were not returned", g_live.size());
}
template<class T> void arr() {
  typedef TA<T> A; typedef ktl::trivial_array<T, A> V; rec_reset(); live_reset(); g_nullzero = chance(50); g_default = 1; typedef std::vector<T> M; std::vector<std::pair<std::unique_ptr<V>, M>> vs; std::vector<int> ids; int len = 4 + below(40);
  auto L = [&] { return chance(30) ? below(3) : below(20); };
  auto make = [&] { int id = 1 + below(3); u64 n = L(); M m; V* v; int k = below(7);
    switch (k) { case 0: v = new V(); id = 1; break; case 1: v = new V(A(id)); break; case 2: { v = new V((size_t)n, A(id)); CK("C03", v->size() == n, "constructed with %llu elements, has %zu", (unsigned long long)n, v->size()); for (size_t i = 0; i < v->size(); i++) { m.push_back(any<T>()); (*v)[i] = m[i]; } break; } case 3: { T t = any<T>(); v = new V((size_t)n, t, A(id)); m.assign(n, t); break; } case 4: { m = some<T>(n); v = new V(ilist(m), A(id)); break; } default: { m = some<T>(n); v = new V((const T*)m.data(), (const T*)m.data() + n, A(id)); } }
    step("array %zu: construct %d, %zu elements, allocator %d", vs.size(), k, m.size(), id); vs.push_back({std::unique_ptr<V>(v), m}); ids.push_back(id); };
  auto check = [&](const char* tags, const char* what) { size_t i = 0; std::set<char*> held; for (auto& p : vs) { equal(tags, *p.first, p.second, what); V& v = *p.first; if (v.size()) { auto it = g_live.find((char*)v.data()); if (it == g_live.end()) fail("the storage of array %zu is not held from an allocator", i); CK("C02", it->second.n >= v.size() * sizeof(T), "the storage of array %zu holds %llu bytes for %zu elements", i, (unsigned long long)it->second.n, (size_t)v.size()); CK("C02 C07", it->second.owner == ids[i], "the storage of array %zu is of allocator %d instead of %d", i, it->second.owner, ids[i]); } if (v.data()) held.insert((char*)v.data()); i++; } CK("C02", held.size() == g_live.size(), "%zu storage blocks are held for %zu arrays that have one", g_live.size(), held.size()); };
  make();
  for (int s = 0; s < len; s++) {
    if (vs.empty()) make(); size_t a = below(vs.size()), b = below(vs.size()); V* v = vs[a].first.get(); M& m = vs[a].second; size_t n = m.size(); const char* tags = "C03"; u64 k = below(14);
    switch (k) {
      case 0: make(); break;
      case 1: case 2: { u64 r = chance(20) ? n : chance(20) && n ? n - 1 : below(30); step("%zu.resize(%llu)", a, (unsigned long long)r); v->resize(r); CK("C03", v->size() == r, "resize(%llu) leaves size %zu", (unsigned long long)r, (size_t)v->size()); while (m.size() > r) m.pop_back(); for (size_t i = m.size(); i < r && i < v->size(); i++) { m.push_back(any<T>()); (*v)[i] = m[i]; } break; }
      case 3: case 4: { M x = some<T>(chance(30) ? n : L()); step("%zu.assign(%zu elements)", a, x.size()); v->assign((const T*)x.data(), (const T*)x.data() + x.size()); m = x; break; }
      case 5: if (n) { size_t i = below(n), j = i + below(n - i + 1); step("%zu.assign(own [%zu,%zu))", a, i, j); M x(m.begin() + i, m.begin() + j); v->assign((const T*)v->data() + i, (const T*)v->data() + j); m = x; } break;
      case 6: { V* c; int id = ids[a]; tags = "C03 C07"; if (chance(50)) { step("%zu: copy of %zu", vs.size(), a); c = new V((const V&)*v); } else { id = 1 + below(3); step("%zu: copy of %zu with allocator %d", vs.size(), a, id); c = new V((const V&)*v, A(id)); } M x = m; vs.push_back({std::unique_ptr<V>(c), x}); ids.push_back(id); break; }
      case 7: { V* c; int id = ids[a]; tags = "C03 C07"; if (chance(50)) { step("%zu: moved from %zu", vs.size(), a); c = new V(std::move(*v)); } else { id = 1 + below(3); step("%zu: moved from %zu with allocator %d", vs.size(), a, id); c = new V(std::move(*v), A(id)); } M x = m; m.clear(); vs.push_back({std::unique_ptr<V>(c), x}); ids.push_back(id); break; }
      case 8: { tags = "C03 C07"; step("%zu = %zu", a, b); *v = (const V&)*vs[b].first; M x = vs[b].second; vs[a].second = x; ids[a] = ids[b]; break; }
      case 9: { tags = "C03 C07"; step("%zu = move(%zu)", a, b); *v = std::move(*vs[b].first); if (a != b) { vs[a].second = vs[b].second; vs[b].second.clear(); ids[a] = ids[b]; } break; }
      case 10: { step("drop %zu", a); vs.erase(vs.begin() + a); ids.erase(ids.begin() + a); break; }
      case 11: if (a != b) { tags = "C03 C07"; step("swap(%zu, %zu)", a, b); std::swap(*vs[a].first, *vs[b].first); std::swap(vs[a].second, vs[b].second); std::swap(ids[a], ids[b]); } break;
      default: if (n) { size_t i = below(n); T t = any<T>(); step("%zu[%zu] = value", a, i); if (chance(50)) (*v)[i] = t; else v->at(i) = t; m[i] = t; tags = "C03 C07"; } }
    check(tags, tags[3] ? "after copy or move" : "afterwards");
  }
  vs.clear(); CK("C02", g_live.empty(), "%zu storage blocks were not returned", g_live.size());
}
#if !defined(DRV_ARRAY_ONLY)
TEST("vector of bytes", vec<uint8_t>()) TEST("vector of 8-byte elements", vec<u64>()) TEST("vector of 12-byte elements", vec<Words>()) TEST("vector of 40-byte elements", vec<Bytes<40>>())
#endif
#if !defined(DRV_VECTOR_ONLY)
TEST("array of bytes", arr<uint8_t>()) TEST("array of 8-byte elements", arr<u64>()) TEST("array of 12-byte elements", arr<Words>()) TEST("array of 40-byte elements", arr<Bytes<40>>())
#endif
}
