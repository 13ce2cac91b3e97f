#pragma once
#include "drv.h"
#include <unistd.h>
#ifndef CFG
#define CFG 0
#endif
namespace utd { static int oom = 0; static std::map<void*, int> sys; static u64 asked = 0;
static void* give(int fam, u64 n, u64 al) { asked++; if (oom > 0) { oom--; return nullptr; } if (n > (1u << 26)) return nullptr; u64 a = al < 16 ? 16 : al; void* p = aligned_alloc(a, ((n ? n : 1) + a - 1) / a * a); if (!p) return nullptr; 
#ifdef DRV_ASAN
  if (fam != 0 || true) { u64 tot = ((n ? n : 1) + a - 1) / a * a; __asan_poison_memory_region((char*)p + n, tot - n); }
#endif
  sys[p] = fam; return p; }
static void take(int fam, void* p) { if (!p) return; auto it = sys.find(p); if (it == sys.end()) fail("memory is given back that the system did not give"); if (it->second != fam) fail("memory is given back through the wrong function"); sys.erase(it);
#ifdef DRV_ASAN
  __asan_unpoison_memory_region(p, 1);
#endif
  free(p); } }
extern "C++" { static void* u_malloc(size_t n) { return utd::give(0, n, 16); } static void u_free(void* p) { utd::take(0, p); }
static int u_posix(void** r, size_t al, size_t n) { if (al == 0 || (al & (al - 1)) || al % sizeof(void*)) return 22; void* p = utd::give(0, n, al); if (!p) return 12; *r = p; return 0; }
static void* u_mm(size_t n, size_t al) { return (al & (al - 1)) ? nullptr : utd::give(1, n, al); } static void u_mmfree(void* p) { utd::take(1, p); }
static void* u_win(size_t n, size_t al) { return (al & (al - 1)) ? nullptr : utd::give(2, n, al); } static void u_winfree(void* p) { utd::take(2, p); } }
namespace std { using ::u_malloc; using ::u_free; }
#define malloc(...) u_malloc(__VA_ARGS__)
#define free(...) u_free(__VA_ARGS__)
#define posix_memalign(...) u_posix(__VA_ARGS__)
#define _mm_malloc(...) u_mm(__VA_ARGS__)
#define _mm_free(...) u_mmfree(__VA_ARGS__)
#define _aligned_malloc(...) u_win(__VA_ARGS__)
#define _aligned_free(...) u_winfree(__VA_ARGS__)
#if CFG == 1
#undef __GLIBC__
#elif CFG == 2
#undef __GLIBC__
#undef _GNU_SOURCE
#undef _XOPEN_SOURCE
#elif CFG == 3
#undef __GLIBC__
#define SSE_INSTR_SET 2
#elif CFG == 4
#undef __GLIBC__
#undef _GNU_SOURCE
#undef _XOPEN_SOURCE
#define _MSC_VER 1
#endif
#include "ktl/utility/aligned_malloc.h"
#undef malloc
#undef free
#undef posix_memalign
#undef _MSC_VER
#include "ktl/utility/alignment.h"
#include "ktl/utility/bits.h"
namespace utd {
static void round_log() { u64 n; switch (below(5)) { case 0: n = below(100); break; case 1: n = ~(u64)0 - below(100); break; case 2: n = ((u64)1 << below(64)) + below(3) - 1; break; case 3: n = g_hints.empty() ? rnd() : g_hints[below(g_hints.size())]; break; default: n = rnd() >> below(64); }
  step("n = %llu", (unsigned long long)n); u64 r = ktl::detail::align_to_architecture(n), A = alignof(std::max_align_t); CK("U01", r < A && ((n + r) % A) == 0, "rounding %llu adds %llu", (unsigned long long)n, (unsigned long long)r); if (n) { u64 l = ktl::detail::log2(n); CK("U01", l < 64 && (n >> l) == 1, "log2(%llu) is %llu", (unsigned long long)n, (unsigned long long)l); } }
static void alloc() { sys.clear(); u64 al = CFG == 0 ? 16 : (u64)8 << below(6); struct L { char* p; u64 n; unsigned char b; }; std::vector<L> live; int len = 1 + below(20);
  for (int i = 0; i < len; i++) { if (chance(60)) { u64 n = size_near({0, 64, 1000, ~(u64)0 - al}); oom = chance(20); bool f = oom || n > (1u << 26) - 600; char* p = (char*)ktl::detail::aligned_malloc(n, al); oom = 0; step("aligned_malloc(%llu, %llu) = %p", (unsigned long long)n, (unsigned long long)al, p); if (p) { CK("U01", ((u64)p & (al - 1)) == 0, "the block is not aligned to %llu", (unsigned long long)al); CK("U01", n <= (1u << 26), "%llu bytes were served", (unsigned long long)n); if (n > (1u << 26)) fail("too small a block was served"); unsigned char b = rnd(); paint(p, n, b); live.push_back({p, n, b}); } else CK("U01", sys.size() == live.size(), "a failed allocation kept memory"); if (!f) CK("U01", p != nullptr, "a request the system can serve failed"); }
    else if (!live.empty()) { size_t j = below(live.size()); L l = live[j]; live.erase(live.begin() + j); CK("U01", painted(l.p, l.n, l.b), "contents disturbed"); step("aligned_free(%p)", l.p); ktl::detail::aligned_free(l.p); CK("U01", sys.size() == live.size(), "the memory did not go back"); } 
    if (chance(10)) { step("aligned_free(null)"); ktl::detail::aligned_free(nullptr); }
    if (chance(20)) { oom = chance(30); i64 a = Counted::alive; Counted* c = ktl::detail::aligned_new<Counted>(al, (u64)6); oom = 0; step("aligned_new = %p", c); if (c) { CK("U01", Counted::alive == a + 1 && c->v == 6, "aligned_new does not construct the object once"); ktl::detail::aligned_delete(c); CK("U01", Counted::alive == a, "aligned_delete does not destroy the object once"); } else CK("U01", Counted::alive == a, "an object without memory"); CK("U01", sys.size() == live.size(), "memory was kept"); } }
  for (auto& l : live) ktl::detail::aligned_free(l.p); CK("U01", sys.empty(), "memory was not given back"); }
TEST("rounding and log2", round_log()) TEST("aligned allocation", alloc())
}
