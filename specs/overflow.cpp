// A08, A09: overflow-checking allocator over an opaque allocator and an opaque stream
#include "opaque.h"
#include "ktl/allocators/overflow.h"
#define GUARD 64
// what is written to the stream: known phrases (by their meaning) and values, in order
enum Tag { G_CORRUPT = 1, G_BEFORE, G_AFTER, G_LEAK, G_ALLOCATED, G_FREES, G_LOGIC, G_CTORS, G_DTORS, G_VALUE, G_CHARS };
struct Str {
  u64 id;
  static void put(u64 k, u64 v) { u64 n = vc_gget("on", 0); vc_gset("ok", n, k); vc_gset("ov", n, v); vc_gset("on", 0, n + 1); }
  static void has(const char* s, const char* w, u64 k) { if (vc_strfind(s, w) != ~(u64)0) put(k, 0); }
  Str& operator<<(const char* s) { has(s, "CORRUPTION", G_CORRUPT); has(s, "Before", G_BEFORE); has(s, "After", G_AFTER); has(s, "LEAK", G_LEAK); has(s, "Allocated memory", G_ALLOCATED); has(s, "Too many frees", G_FREES);
    has(s, "LOGIC ERROR", G_LOGIC); has(s, "Too many constructor", G_CTORS); has(s, "Too many destructor", G_DTORS); return *this; }
  Str& operator<<(void* v) { put(G_VALUE, adr(v)); return *this; }
  Str& operator<<(const void* v) { put(G_VALUE, adr(v)); return *this; }
  Str& operator<<(unsigned char* v) { put(G_CHARS, adr(v)); return *this; }
  Str& operator<<(const unsigned char* v) { put(G_CHARS, adr(v)); return *this; }
  Str& operator<<(unsigned long v) { put(G_VALUE, v); return *this; }
  Str& operator<<(long v) { put(G_VALUE, (u64)v); return *this; }
  Str& operator<<(unsigned long long v) { put(G_VALUE, v); return *this; }
  Str& operator<<(long long v) { put(G_VALUE, (u64)v); return *this; }
  Str& operator<<(int v) { put(G_VALUE, (u64)(i64)v); return *this; }
  Str& operator<<(unsigned v) { put(G_VALUE, v); return *this; }
  Str& operator<<(char v) { put(G_CHARS, (u64)v); return *this; }
  Str& operator<<(unsigned char v) { put(G_CHARS, v); return *this; }
  Str& operator<<(bool v) { put(G_CHARS, v); return *this; }
};
VCI u64 out_n() { return vc_gget("on", 0); }
VCI bool out_is(u64 i, u64 k, u64 v) { return (vc_gget("ok", i) == k) & ((k < G_VALUE) | (vc_gget("ov", i) == v)); }
static void out_world() { vc_gzero("on", 0); vc_gmap("ok"); vc_gmap("ov"); }
template<unsigned C> using OV = ktl::overflow<OA<1, C>, Str>;
#define LIM ((i64)1 << 61)
template<class X> static void counters(X& x, i64& a, i64& c) {
  a = (i64)vc_any("net_bytes"); c = (i64)vc_any("net_constructs");
  vc_assume((a > -LIM) & (a < LIM) & (c > -LIM) & (c < LIM));
  x.m_Allocs = a; x.m_Constructs = c;
}
template<unsigned C> static void silent_dtor(OV<C>& x) { x.m_Allocs = 0; x.m_Constructs = 0; }

H(ov_alloc) {
  vc_world(1); out_world(); Str s{7}; u64 id = vc_any("id"); vc_assume(id < 65536); OV<0> x(s, OA<1, 0>(id)); i64 a, c; counters(x, a, c);
  u64 us = vc_any("user_size"), u = vc_someblock("user_block", vc_any("anyone"), us);
  u64 n = vc_any("n"); log_reset(); u64 sn = vc_snap();
  u64 p = adr(x.allocate(n));
  vc_check(out_n() == 0, "A08,A09: allocating writes nothing");
  if (p == 0) { vc_reach("refused");
    vc_check(x.m_Allocs == a && x.m_Constructs == c, "A03,A09: a failed allocation is not counted");
    vc_check(log_n() == 0 || (log_n() == 1 && log_k(0) == EV_ALLOC && log_r(0) == 0), "A03,A08: nothing stays allocated"); 
    vc_check(log_n() == 1 || n + 2 * GUARD < n, "A08: a representable request reaches the underlying allocator");
    vc_check(log_n() == 0 || log_is(0, EV_ALLOC, id, n + 2 * GUARD, 0), "A08: room for both guards is requested"); }
  else { vc_reach("served");
    vc_check(n + 2 * GUARD >= n, "A03,A08: a block never is smaller than requested");
    vc_check(log_n() == 1 && log_is(0, EV_ALLOC, id, n + 2 * GUARD, 0), "A03,A08: the underlying allocator is asked once, with room for both guards");
    vc_check(p == log_r(0) + GUARD, "A08: the block lies between the guards, inside the underlying block");
    vc_check(x.m_Allocs == a + (i64)n && x.m_Constructs == c, "A09: exactly the bytes asked for are counted"); }
  vc_check(adr(&x.m_Stream) == adr(&s) && x.m_Alloc.id == id, "A08: stream and allocator are kept");
  vc_check_all(T_ADDR, "A08: other memory is untouched", [=](u64 b) { return imp((b >= u) & (b - u < us), vc_hload(b) == vc_hload_at(sn, b)); });
  vc_dead();
}
// allocate; then anyone may change anything in and around the block; then deallocate
H(ov_dealloc) {
  vc_world(1); out_world(); Str s{7}; u64 id = vc_any("id"); vc_assume(id < 65536); OV<0> x(s, OA<1, 0>(id)); i64 a, c; counters(x, a, c);
  u64 us = vc_any("user_size"), u = vc_someblock("user_block", vc_any("anyone"), us);
  u64 n = vc_any("n");
  u64 p = adr(x.allocate(n));
  if (p == 0) { vc_dead(); return; }
  u64 q = log_r(0);
  vc_check(p == q + GUARD, "A08: the block lies between the guards, inside the underlying block"); vc_assume(p == q + GUARD);
  u64 s0 = vc_snap();
  vc_hhavoc(q, n + 2 * GUARD);
  u64 s1 = vc_snap();
  u64 before = 0, after = 0;
  for (u64 k = 1; k <= GUARD; k++) before = ite(vc_hload_at(s1, p - k) != vc_hload_at(s0, p - k), k, before);
  for (u64 k = 1; k <= GUARD; k++) after = ite(vc_hload_at(s1, p + n + k - 1) != vc_hload_at(s0, p + n + k - 1), k, after);
  log_reset(); counters(x, a, c);
  x.deallocate((void*)p, n);
  u64 hit = (u64)(before != 0) + (u64)(after != 0);
  if (hit == 0) { vc_reach("intact"); vc_check(out_n() == 0, "A08: an intact block is not reported"); }
  else { vc_reach("corrupted");
    vc_check(out_n() == 3 + 2 * hit, "A08: the report has exactly the parts that apply");
    vc_check(out_is(0, G_CORRUPT, 0), "A08: corruption is reported"); vc_check(out_is(1, G_VALUE, p), "A08: the report names the address"); vc_check(out_is(2, G_VALUE, n), "A08: the report names the size");
    if (before) { vc_reach("before"); vc_check(out_is(3, G_BEFORE, 0) && out_is(4, G_VALUE, before), "A08: the report states the extent before the block"); }
    if (after) { vc_reach("after"); u64 o = 3 + 2 * (u64)(before != 0); vc_check(out_is(o, G_AFTER, 0) && out_is(o + 1, G_VALUE, after), "A08: the report states the extent after the block"); } }
  vc_check(log_n() == 1 && log_is(0, EV_DEALLOC, id, q, n + 2 * GUARD), "A08: the underlying block goes back once, whole");
  vc_check(x.m_Allocs == a - (i64)n && x.m_Constructs == c, "A09: exactly the bytes returned are counted");
  vc_check(adr(&x.m_Stream) == adr(&s) && x.m_Alloc.id == id, "A08: stream and allocator are kept");
  vc_check_all(T_ADDR, "A08: other memory is untouched", [=](u64 b) { return imp((b >= u) & (b - u < us), vc_hload(b) == vc_hload_at(s1, b)); });
  vc_dead();
}
static void final_report(i64 a, i64 c) {
  u64 i = 0;
  if (a != 0) {
    vc_check(out_is(i, G_LEAK, 0), "a leak is reported when allocated and returned bytes differ"); i++;
    if (a > 0) { vc_reach("leak"); vc_check(out_is(i, G_ALLOCATED, 0) && out_is(i + 1, G_VALUE, (u64)a), "the report states the bytes still allocated"); }
    else { vc_reach("too many frees"); vc_check(out_is(i, G_FREES, 0) && out_is(i + 1, G_VALUE, (u64)-a), "the report states the bytes returned too often"); }
    i += 2;
  }
  if (c != 0) {
    vc_check(out_is(i, G_LOGIC, 0), "an imbalance is reported when constructions and destructions differ"); i++;
    if (c > 0) { vc_reach("constructs"); vc_check(out_is(i, G_CTORS, 0) && out_is(i + 1, G_VALUE, (u64)c), "the report states the missing destructions"); }
    else { vc_reach("destructs"); vc_check(out_is(i, G_DTORS, 0) && out_is(i + 1, G_VALUE, (u64)-c), "the report states the missing constructions"); }
    i += 2;
  }
  if (i == 0) vc_reach("balanced");
  vc_check(out_n() == i, "nothing else is reported");
}
H(ov_dtor) {
  vc_world(1); out_world(); Str s{7}; i64 a, c; log_reset();
  { OV<0> x(s, OA<1, 0>(3)); counters(x, a, c); }
  final_report(a, c);
  vc_check(log_n() == 0, "destroying asks the underlying allocator for nothing");
}
H(ov_fresh) {
  vc_world(1); out_world(); Str s{7};
  { OV<0> x(s); vc_check(x.m_Allocs == 0 && x.m_Constructs == 0 && adr(&x.m_Stream) == adr(&s), "a new allocator starts balanced"); vc_check(adr(&x.get_stream()) == adr(&s), "A12: the stream is the one given"); }
  { u64 i = vc_any("i"); OV<0> x(s, i); vc_check(x.m_Allocs == 0 && x.m_Constructs == 0 && x.m_Alloc.id == i && adr(&x.m_Stream) == adr(&s), "a new allocator starts balanced, over the given allocator"); vc_check(x.get_allocator().id == i, "A12: the underlying allocator is the one given"); }
  vc_reach("created"); vc_check(out_n() == 0, "a balanced history is silent");
}
// moving hands the history to the new allocator
H(ov_move) {
  vc_world(1); out_world(); Str s{7}; i64 a, c; u64 id = vc_any("id"); log_reset();
  { OV<0> x(s, id); counters(x, a, c); OV<0> y(std::move(x)); vc_check(out_n() == 0, "moving writes nothing"); vc_check(y.m_Allocs == a && y.m_Constructs == c && y.m_Alloc.id == id && adr(&y.m_Stream) == adr(&s), "the counts move along");
    vc_check(y.get_allocator().id == id, "A12: a moved allocator reaches the same memory"); }
  final_report(a, c);
}
template<unsigned C> static void cons() {
  vc_world(1); out_world(); Str s{7}; u64 id = vc_any("id"); vc_assume(id < 65536); OV<C> x(s, OA<1, C>(id)); i64 a, c; counters(x, a, c);
  u64 n = vc_any("n"); vc_assume(n >= 8); u64 p = vc_someblock("p", id, n), v = vc_any("v");
  log_reset(); x.construct((Obj*)p, v);
  if (C & C_CONS) vc_check(log_n() == 2 && log_is(0, EV_CONS, id, p, 1) && log_is(1, EV_TCTOR, 0, p, v), "A12: the wrapped allocator constructs the object exactly once");
  else vc_check(log_n() == 1 && log_is(0, EV_TCTOR, 0, p, v), "A12: the object is constructed exactly once");
  vc_check(x.m_Constructs == c + 1 && x.m_Allocs == a, "A09: each construction is counted");
  log_reset(); x.destroy((Obj*)p);
  if (C & C_CONS) vc_check(log_n() == 2 && log_is(0, EV_DEST, id, p, 0) && log_is(1, EV_TDTOR, 0, p, 0), "A12: the wrapped allocator destroys the object exactly once");
  else vc_check(log_n() == 1 && log_is(0, EV_TDTOR, 0, p, 0), "A12: the object is destroyed exactly once");
  vc_check(x.m_Constructs == c && x.m_Allocs == a, "A09: each destruction is counted"); vc_check(out_n() == 0, "A09: nothing is written"); vc_reach("constructed and destroyed");
  vc_dead();
}
H(ov_cons) { cons<C_CONS>(); }
H(ov_cons_self) { cons<0>(); }
H(ov_owns) {
  vc_world(1); out_world(); Str s{7}; u64 id = vc_any("id"); vc_assume(id < 65536); OV<C_OWNS | C_MAX> x(s, OA<1, C_OWNS | C_MAX>(id)); u64 p = vc_any("p"); log_reset();
  vc_check(x.owns((void*)p) == oa_owns(id, p), "A04,A12: owns answers as the wrapped allocator"); vc_check(log_n() == 0 && out_n() == 0, "A04: asking changes nothing"); vc_reach("asked");
  vc_check(x.max_size() <= vc_fun1("max_size", id), "A12: max_size does not exceed the wrapped allocator's");
  silent_dtor(x);
}
H(ov_eq) {
  vc_world(1); out_world(); Str s{7}, t{8}; u64 i = vc_any("i"), j = vc_any("j"); OV<0> x(s, i), y(t, j); i64 a, c; counters(x, a, c); counters(y, a, c);
  vc_check((x == y) == (i == j), "A13: wrappers are equal exactly when the wrapped allocators are"); vc_check((x != y) == (i != j), "A13: inequality is the negation of equality");
  vc_check((y == x) == (x == y) && x == x && !(x != x), "A13: equality is reflexive and symmetric"); vc_reach("compared");
  OV<0> z(x); vc_check(z == x && !(z != x), "A13: a copy is equal"); vc_check(z.get_allocator().id == i, "A12: a copy refers to the same memory");
  silent_dtor(x); silent_dtor(y); silent_dtor(z);
}
