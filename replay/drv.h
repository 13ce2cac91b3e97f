// Common parts of the native drivers: random histories on the real code, compared with what the property promises.
// usage: driver SEED SECONDS [hint values ...]; prints "CASES n"; on a violation prints "FAIL: ..." and the history, exits 3.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>
typedef uint64_t u64; typedef int64_t i64;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define DRV_ASAN 1
#endif
#endif
static u64 g_seed = 1, g_s = 1; static double g_secs = 10; static std::vector<u64> g_hints; static u64 g_cases = 0; static std::string& g_hist = *new std::string;
static u64 rnd() { u64 z = (g_s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static u64 below(u64 n) { return n ? rnd() % n : 0; }
static bool chance(int pct) { return (int)below(100) < pct; }
static void step(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (g_hist.size() < 20000) { g_hist += b; g_hist += '\n'; } }
static void show_history() { printf("history of the failing case:\n%s\n", g_hist.c_str()); fflush(stdout); }
[[noreturn]] static void fail(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); printf("FAIL: %s\n", b); show_history(); printf("CASES %llu\n", (unsigned long long)g_cases); fflush(stdout); _exit(3); }
static bool active(const char* tags) { return strstr(tags, PROP) != nullptr; }
// a requirement that belongs to the properties named in tags
#define CK(tags, cond, ...) do { if (!(cond) && active(tags)) fail(__VA_ARGS__); } while (0)
static void newcase() { g_cases++; g_hist.clear(); }
// sizes around the interesting values of the configuration
static u64 size_near(std::initializer_list<u64> around) {
  u64 k = below(10);
  if (k == 0 && !g_hints.empty()) return g_hints[below(g_hints.size())];
  if (k <= 2) { auto it = around.begin(); std::advance(it, below(around.size())); return *it + below(5) - 2; }
  if (k == 3) { auto it = around.begin(); std::advance(it, below(around.size())); return *it + below(40) - 20; }
  if (k == 4) return ~(u64)0 - below(300);
  if (k == 5) return (u64)1 << below(64);
  u64 m = 1; for (u64 x : around) m = std::max(m, x); return below(k < 9 ? std::min<u64>(m / 2 + 2, 200) : m + 32);
}
static std::vector<std::pair<const char*, std::function<void()>>> g_tests;
static void live_reset();
static int drv_main(int ac, char** av) {
  if (ac > 1) g_seed = strtoull(av[1], 0, 10); if (ac > 2) g_secs = atof(av[2]); for (int i = 3; i < ac; i++) g_hints.push_back(strtoull(av[i], 0, 0));
#ifdef DRV_ASAN
  __sanitizer_set_death_callback(show_history);
#endif
  setvbuf(stdout, 0, _IOLBF, 0);
  auto t0 = std::chrono::steady_clock::now(); u64 round = 0;
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  while (el() < g_secs) {
    for (auto& t : g_tests) { g_s = g_seed * 1000003 + round * 7919 + 17; for (const char* c = t.first; *c; c++) g_s = g_s * 131 + *c; newcase(); step("# %s", t.first); t.second(); if (el() >= g_secs) break; }
    round++;
  }
  printf("CASES %llu\n", (unsigned long long)g_cases); fflush(stdout); live_reset(); return 0;
}
struct Add { Add(const char* n, std::function<void()> f) { g_tests.push_back({n, f}); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define TEST(name, ...) static Add CAT(add_, __COUNTER__)(name, [] { __VA_ARGS__; });
// ---- memory that knows who supplied it
struct Blk { u64 n; int owner; unsigned char fillb; };
static std::map<char*, Blk>& g_live = *new std::map<char*, Blk>;      // blocks the recording allocators have handed out
struct Ev { char k; int who; void* p; u64 n; };
static std::vector<Ev> g_ev;             // what the recording allocators were asked
static std::map<int, int> g_failnext;    // this many following requests of the allocator fail
static std::map<int, u64> g_limit;       // the largest request the allocator serves
static u64 g_maxserve = 1 << 20;
static void live_reset() { for (auto& b : g_live) free(b.first); g_live.clear(); }
static void rec_reset() { g_ev.clear(); g_failnext.clear(); g_limit.clear(); }
static bool rec_will_fail(int who, u64 n) { if (g_failnext.count(who) && g_failnext[who] > 0) return true; if (g_limit.count(who) && n > g_limit[who]) return true; return n > g_maxserve; }
static void* rec_alloc(int who, u64 n) {
  bool f = rec_will_fail(who, n); if (g_failnext.count(who) && g_failnext[who] > 0) g_failnext[who]--;
  char* p = nullptr;
  if (!f) { p = (char*)malloc(n ? n : 1); g_live[p] = {n, who, 0}; }
  g_ev.push_back({'a', who, p, n}); return p;
}
#define REC_TAGS "A03 A05 A06 A07 A08 A09 A10 A11 A12 C01 C02 C03 C05 C06 C07"
static void rec_free(int who, void* q, u64 n) {
  char* p = (char*)q; g_ev.push_back({'d', who, p, n});
  auto it = g_live.find(p);
  if (it == g_live.end()) fail("allocator %d was given back %p, which it does not hold (or no longer)", who, q);
  if (it->second.owner != who) fail("allocator %d was given back a block of allocator %d", who, it->second.owner);
  if (it->second.n != n) fail("a block obtained with size %llu was given back with size %llu", (unsigned long long)it->second.n, (unsigned long long)n);
  g_live.erase(it); free(p);
}
static bool rec_owns(int who, const void* q) { auto it = g_live.upper_bound((char*)q); if (it == g_live.begin()) return false; --it; return it->second.owner == who && (char*)q < it->first + std::max<u64>(it->second.n, 1); }
static u64 rec_held(int who) { u64 c = 0; for (auto& b : g_live) c += b.second.owner == who; return c; }
// recording allocator; its identity is a run-time value
struct Rec {
  int id; bool operator==(const Rec& r) const noexcept { return id == r.id; } bool operator!=(const Rec& r) const noexcept { return id != r.id; }
  explicit Rec(int i = 0) noexcept : id(i) {}
  void* allocate(size_t n) noexcept { return rec_alloc(id, n); } void deallocate(void* p, size_t n) noexcept { rec_free(id, p, n); }
  bool owns(void* p) const noexcept { g_ev.push_back({'o', id, p, 0}); return rec_owns(id, p); }
  size_t max_size() const noexcept { return 1000 + id; }
  template<class T, class... A> void construct(T* p, A&&... a) noexcept { g_ev.push_back({'c', id, p, sizeof...(A)}); ::new (p) T(std::forward<A>(a)...); }
  template<class T> void destroy(T* p) noexcept { g_ev.push_back({'x', id, p, 0}); p->~T(); }
};
// the same without any of the optional members
struct RecMin {
  int id; bool operator==(const RecMin& r) const noexcept { return id == r.id; } bool operator!=(const RecMin& r) const noexcept { return id != r.id; }
  explicit RecMin(int i = 0) noexcept : id(i) {}
  void* allocate(size_t n) noexcept { return rec_alloc(id, n); } void deallocate(void* p, size_t n) noexcept { rec_free(id, p, n); }
};
static unsigned calls(char k) { unsigned c = 0; for (auto& e : g_ev) c += e.k == k; return c; }
static Ev* call(char k) { for (auto& e : g_ev) if (e.k == k) return &e; return nullptr; }
// ---- client data in blocks
static u64 shown(u64 n) { return n < 4096 ? n : 4096; }
static void paint(void* p, u64 n, unsigned char b) { memset(p, b, n); }
static bool painted(void* p, u64 n, unsigned char b) { unsigned char* c = (unsigned char*)p; for (u64 i = 0; i < n; i++) if (c[i] != b) return false; return true; }
struct Counted { static i64 alive, made; u64 v; Counted(u64 x = 0) noexcept : v(x) { alive++; made++; } Counted(const Counted& o) noexcept : v(o.v) { alive++; made++; } ~Counted() { alive--; v = 0xdead; } };
i64 Counted::alive = 0; i64 Counted::made = 0;
