// Opaque allocator instances with a lifetime, and the system allocator's contract.
#pragma once
#include "opaque.h"
#define SYS ((u64)70000)
static void bump(const char* c) { vc_gset(c, 0, vc_gget(c, 0) + 1); }
extern "C" void* vc_model_malloc(size_t n) {
  if (vc_fork(vc_any("malloc_fails") != 0)) { vc_gset("sysfail", 0, 1); return nullptr; }
  bump("sysallocs"); return (void*)vc_newblock(SYS, n);
}
extern "C" void vc_model_free(void* p) {
  if (p == nullptr) return;
  vc_term(T_PTR, adr(p)); vc_check(live(adr(p)) != 0 && owner(adr(p)) == SYS, "memory given back to the system is live and came from it"); vc_gset("live", adr(p), 0); vc_gset("released", adr(p), 1); bump("sysfrees");
}
// an instance: its identity is unique while it lives; blocks[id] counts the blocks it has handed out and not got back
template<unsigned C> struct CI {
  u64 id;
  CI() noexcept { id = vc_any("instance"); vc_assume(id < 65536); vc_term(T_ID, id); vc_assume(vc_gget("idlive", id) == 0); vc_assume(vc_gget("blocks", id) == 0); vc_gset("idlive", id, 1); bump("ctors"); vc_gset("fresh", id, 1); }
  explicit CI(u64 i) noexcept : id(i) { vc_term(T_ID, id); vc_check(vc_gget("idlive", id) == 0, "an instance is created once"); vc_gset("idlive", id, 1); bump("ctors"); vc_gset("fresh", id, 1); }
  bool operator==(const CI& r) const noexcept { return id == r.id; }
  bool operator!=(const CI& r) const noexcept { return id != r.id; }
  CI(const CI&) = delete; CI& operator=(const CI&) = delete;
  ~CI() { vc_check(vc_gget("idlive", id) == 1, "an instance is destroyed once"); vc_check(vc_gget("strict", 0) == 0 || vc_gget("blocks", id) == 0, "an instance with live blocks is not destroyed"); vc_gset("idlive", id, 0); bump("dtors"); vc_gset("lastdtor", 0, id); }
  void* allocate(size_t n) noexcept { vc_check(vc_gget("idlive", id) == 1, "a living instance is asked"); u64 p = oa_allocate(id, n); if (p) vc_gset("blocks", id, vc_gget("blocks", id) + 1); else if (vc_gget("fresh", id) == 1) vc_gset("newfail", 0, 1); return (void*)p; }
  void deallocate(void* p, size_t n) noexcept { vc_check(vc_gget("idlive", id) == 1, "a living instance is asked"); oa_deallocate(id, adr(p), n); vc_gset("blocks", id, vc_gget("blocks", id) - 1); }
  bool owns(void* p) const noexcept { return oa_owns(id, adr(p)); }
  template<unsigned K = C, std::enable_if_t<(K & C_MAX) != 0, int> = 0> size_t max_size() const noexcept { return vc_fun1("max_size", id); }
  template<typename T, typename... A, unsigned K = C, std::enable_if_t<(K & C_CONS) != 0, int> = 0> void construct(T* p, A&&... a) noexcept { vc_log(EV_CONS, id, adr(p), sizeof...(A), 0); ::new (p) T(std::forward<A>(a)...); }
  template<typename T, unsigned K = C, std::enable_if_t<(K & C_CONS) != 0, int> = 0> void destroy(T* p) noexcept { vc_log(EV_DEST, id, adr(p), 0, 0); p->~T(); }
};
static void instances() { vc_gzero("released", 0); vc_gmap("blocks"); vc_gzero("ctors", 0); vc_gzero("dtors", 0); vc_gzero("sysallocs", 0); vc_gzero("sysfrees", 0); vc_gzero("fresh", 0); vc_gzero("sysfail", 0); vc_gzero("newfail", 0); vc_gzero("strict", 0); vc_gzero("lastdtor", ~(u64)0); }
