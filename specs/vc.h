// Specification library: the vocabulary contracts are written in.
// vc_* functions without a body are interpreted by /verif/vc/symex.py.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <ostream>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
extern "C" {
u64 vc_any(const char*);                         // arbitrary 64-bit value
void vc_assume(bool);
void vc_check(bool, const char*);                // obligation
u64 vc_fun1(const char*, u64);                   // uninterpreted function
u64 vc_fun2(const char*, u64, u64);
void vc_gmap(const char*);                       // declare ghost map with arbitrary contents
void vc_gzero(const char*, u64);                 // declare ghost map that is constant
u64 vc_gget(const char*, u64);
void vc_gset(const char*, u64, u64);
void vc_ghrange(const char*, u64, u64);
void vc_gfill(const char*, u64, u64, u64);
u64 vc_snap();                                   // remember the whole state
u64 vc_entry();                                  // within a loop invariant: the state in which the loop was entered
u64 vc_gget_at(u64, const char*, u64);
u64 vc_hload_at(u64, u64);
u64 vc_hload(u64);                               // specification read of a heap cell
void vc_hstore(u64, u64);
void vc_hhavoc(u64, u64);
void vc_cell(u64);                               // size in bytes of a heap cell
void vc_term(int, u64);                          // register a ground term for quantifier instantiation
void vc_term_div(int, u64, u64);                  // the same for a quotient
void vc_assume_all_(int, bool (*)(void*, u64), void*);
void vc_check_all_(int, const char*, bool (*)(void*, u64), void*);
void vc_assume_all2_(int, bool (*)(void*, u64, u64), void*);
void vc_check_all2_(int, const char*, bool (*)(void*, u64, u64), void*);
void vc_claim(bool);
void vc_claim_all_(int, bool (*)(void*, u64), void*);
void vc_claim_all2_(int, bool (*)(void*, u64, u64), void*);
void vc_inv_(int, void (*)(void*, ...), void*);
void vc_inv_clear();
void vc_contract_(const char*, void (*)());    // calls of functions whose mangled name matches are replaced by their contract
void vc_unroll(u64);
void vc_reach(const char*);
void vc_dead();
void vc_print(const char*, u64);
u64 vc_strid(const char*);
u64 vc_strfind(const char*, const char*);        // position of a constant in a constant string, or -1
bool vc_fork(bool);
bool vc_islocal(u64);
void* vc_pin(u64);                               // specification storage that never dies
}
enum { T_IT = 0, T_PTR = 1, T_ID = 2, T_ADDR = 3, T_IDX = 4, T_LOG = 5, T_VAL = 6 };
#define VCI static inline __attribute__((always_inline))
template<class F> static bool vc_thunk1(void* c, u64 a) { return (*(F*)c)(a); }
template<class F> static bool vc_thunk2(void* c, u64 a, u64 b) { return (*(F*)c)(a, b); }
template<class F> static void vc_assume_all(int cls, F f) { vc_assume_all_(cls, &vc_thunk1<F>, &f); }
template<class F> static void vc_check_all(int cls, const char* l, F f) { vc_check_all_(cls, l, &vc_thunk1<F>, &f); }
template<class F> static void vc_assume_all2(int cls, F f) { vc_assume_all2_(cls, &vc_thunk2<F>, &f); }
template<class F> static void vc_check_all2(int cls, const char* l, F f) { vc_check_all2_(cls, l, &vc_thunk2<F>, &f); }
template<class F> static void vc_claim_all(int cls, F f) { vc_claim_all_(cls, &vc_thunk1<F>, &f); }
template<class F> static void vc_claim_all2(int cls, F f) { vc_claim_all2_(cls, &vc_thunk2<F>, &f); }
// loop invariant candidates (the inductive ones are kept, the rest dropped, for every loop met afterwards)
template<class F> static void vc_ithunk0(void* c, u64 it) { (*(F*)c)(it); }
template<class F> static void vc_ithunk1(void* c, u64 it, u64 v) { (*(F*)c)(it, v); }
template<class F> static void vc_ithunk2(void* c, u64 it, u64 v, u64 w) { (*(F*)c)(it, v, w); }
template<class F> static void vc_inv(F f) { F* p = new (vc_pin(sizeof(F))) F(f); vc_inv_(0, (void(*)(void*, ...))&vc_ithunk0<F>, p); }
template<class F> static void vc_inv_var(F f) { F* p = new (vc_pin(sizeof(F))) F(f); vc_inv_(1, (void(*)(void*, ...))&vc_ithunk1<F>, p); }
template<class F> static void vc_inv_var2(F f) { F* p = new (vc_pin(sizeof(F))) F(f); vc_inv_(2, (void(*)(void*, ...))&vc_ithunk2<F>, p); }
// non-short-circuit logic keeps specification closures branch free
VCI bool imp(bool a, bool b) { return (!a) | b; }
VCI u64 adr(const volatile void* p) { return (u64)p; }
VCI u64 ite(bool c, u64 a, u64 b) { return c ? a : b; }
template<class R, class... A> static void vc_contract(const char* rx, R (*f)(A...)) { vc_contract_(rx, (void (*)())f); }
#define H(name) extern "C" void h_##name()
