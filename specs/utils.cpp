// U01: size rounding, log2, aligned allocation
#include "opaque.h"
#include <unistd.h>
#if CFG == 1      // posix_memalign
#undef __GLIBC__
#elif CFG == 2    // portable fallback
#undef __GLIBC__
#undef _GNU_SOURCE
#undef _XOPEN_SOURCE
#elif CFG == 3    // _mm_malloc
#undef __GLIBC__
#define SSE_INSTR_SET 2
extern "C" void* x_mm_malloc(size_t, size_t); extern "C" void x_mm_free(void*);
#define _mm_malloc x_mm_malloc
#define _mm_free x_mm_free
#elif CFG == 4    // Windows
#undef __GLIBC__
#undef _GNU_SOURCE
#undef _XOPEN_SOURCE
#define _MSC_VER 1
extern "C" void* _aligned_malloc(size_t, size_t); extern "C" void _aligned_free(void*);
#endif
#include "ktl/utility/aligned_malloc.h"
#include "ktl/utility/alignment.h"
#include "ktl/utility/bits.h"
// the system's contracts
enum { MALLOC = 70000, MM, WIN };
static u64 sys(u64 id, u64 n, u64 al) { if (vc_fork(vc_any("out_of_memory") != 0)) return 0; u64 p = vc_newblock(id, n, 16); vc_assume((p & (al - 1)) == 0); vc_log(EV_SYSALLOC, id, n, al, p); return p; }
static void back(u64 id, u64 p) { vc_term(T_PTR, p); if (p) { vc_check(live(p) != 0 && owner(p) == id, "memory given back is live and came from the matching function"); vc_gset("live", p, 0); vc_log(EV_SYSFREE, id, p, 0, 0); } }
static bool pow2(u64 x) { return x != 0 && (x & (x - 1)) == 0; }
extern "C" {
void* vc_model_malloc(size_t n) { return (void*)sys(MALLOC, n, 16); }
void vc_model_free(void* p) { back(MALLOC, adr(p)); }
int vc_model_posix_memalign(void** r, size_t al, size_t n) { vc_check(pow2(al) && al % sizeof(void*) == 0, "posix_memalign is asked for a valid alignment"); u64 p = sys(MALLOC, n, al); if (p == 0) return 12; *r = (void*)p; return 0; }
void* vc_model_x_mm_malloc(size_t n, size_t al) { vc_check(pow2(al), "_mm_malloc is asked for a valid alignment"); return (void*)sys(MM, n, al); }
void vc_model_x_mm_free(void* p) { back(MM, adr(p)); }
void* vc_model__aligned_malloc(size_t n, size_t al) { vc_check(pow2(al), "_aligned_malloc is asked for a valid alignment"); return (void*)sys(WIN, n, al); }
void vc_model__aligned_free(void* p) { back(WIN, adr(p)); }
}
H(al_malloc) {
  vc_world(); u64 n = vc_any("n"); const u64 al = ALIGN; log_reset();
  void* p = ktl::detail::aligned_malloc(n, al); u64 a = adr(p);
  if (p == nullptr) { vc_reach("refused"); vc_check(log_n() == 0, "nothing is kept when the allocation fails"); vc_dead(); }
  vc_reach("served"); u64 b = log_r(0);
  vc_check(log_n() == 1 && log_k(0) == EV_SYSALLOC && live(b) != 0, "one block is taken from the system");
  vc_check((a & (al - 1)) == 0, "the block has the alignment asked for");
  vc_check(a >= b && a - b <= bsize(b) && n <= bsize(b) - (a - b), "the block is at least as large as asked for and inside what the system gave");
  // the client writes its block
  vc_hhavoc(a, n);
  log_reset(); ktl::detail::aligned_free(p);
  vc_check(log_n() == 1 && log_k(0) == EV_SYSFREE && log_a(0) == b, "the memory goes back to the system exactly once"); vc_dead();
}
H(al_null) { vc_world(); log_reset(); ktl::detail::aligned_free(nullptr); vc_reach("null"); vc_check(log_n() == 0, "releasing null does nothing"); }
H(al_new) {
  vc_world(); u64 v = vc_any("v"); log_reset();
  Obj* p = ktl::detail::aligned_new<Obj>(ALIGN, v);
  if (!p) { vc_reach("refused"); vc_check(log_n() == 0, "no object is made without memory"); vc_dead(); }
  vc_reach("made"); u64 b = log_r(0); vc_check(log_n() == 2 && log_is(1, EV_TCTOR, 0, adr(p), v) && (adr(p) & (ALIGN - 1)) == 0, "the object is constructed once, where the memory is");
  vc_check(adr(p) >= b && adr(p) + sizeof(Obj) <= b + bsize(b), "the object lies inside what the system gave");
  log_reset(); ktl::detail::aligned_delete(p);
  vc_check(log_n() == 2 && log_is(0, EV_TDTOR, 0, adr(p), 0) && log_k(1) == EV_SYSFREE && log_a(1) == b, "the object is destroyed once and its memory goes back once"); vc_dead();
}
H(al_round) {
  u64 n = vc_any("n"), r = ktl::detail::align_to_architecture(n), A = alignof(std::max_align_t); vc_reach("rounded");
  vc_check(r < A, "padding is smaller than the alignment"); vc_check(((n + r) & (A - 1)) == 0, "the padded size is a multiple of the alignment");
  vc_check(imp((n & (A - 1)) == 0, r == 0), "a multiple needs no padding");
}
H(al_log2) {
  u64 n = vc_any("n"), r = ktl::detail::log2(n); vc_assume(n != 0); vc_reach("log2");
  vc_check(r < 64 && (n >> r) == 1, "log2 is the exact floor logarithm");
}
