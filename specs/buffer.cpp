// C04 for trivial_buffer<E, N>
#include "elem.h"
#include "ktl/containers/trivial_buffer.h"
#define OLD(s, b) [=](u64 o) { return vc_hload_at(s, (b) + o); }
static u64 source(u64 n) { vc_assume(n < HEAP_HI && n * SZ < HEAP_HI); u64 s = vc_someblock("source", 70001, n * SZ); vc_gset("srcsize", 0, n * SZ); return s; }
// room for a buffer, anywhere its type may be placed, with other data around it
template<class B> static u64 place(const char* nm) { u64 p = vc_newblock(70002, 4096 + sizeof(B)), off = vc_any(nm); vc_assume(off <= 4096 && ((p + off) & (alignof(B) - 1)) == 0); vc_gset("lastblock", 0, p + off); vc_gset("lastsize", 0, sizeof(B)); return p + off; }
static void start() { world(); vc_gzero("srcsize", 0); }
template<class B> static void around(u64 s, u64 at) { vc_check_all(T_ADDR, "C04: no access leaves the buffer", [=](u64 a) { return imp((a < at) | (a - at >= sizeof(B)), vc_hload(a) == vc_hload_at(s, a)); }); }
template<size_t N> struct BT {
  typedef ktl::trivial_buffer<E, N> B; 
  static void layout(B& x, u64 at) {
    const B& cx = x; u64 d = adr(x.data());
    vc_check(d >= at && d + N * SZ <= at + sizeof(B) && (d & (alignof(E) - 1)) == 0, "C04: the elements lie inside the buffer and are aligned");
    vc_check(x.size() == N && cx.size() == N, "C04: the buffer has its size");
    vc_check(adr(cx.data()) == d && adr(x.begin()) == d && adr(cx.begin()) == d && adr(x.end()) == d + N * SZ && adr(cx.end()) == d + N * SZ, "C04: iterators span the elements");
    vc_check(adr(&*x.rbegin()) == d + (N - 1) * SZ && adr(&*cx.rbegin()) == d + (N - 1) * SZ && adr(x.rend().base()) == d && adr(cx.rend().base()) == d && adr(x.rbegin().base()) == d + N * SZ, "C04: reverse iterators span the elements backwards");
    u64 i = vc_any("index"), w = d + (i % N) * SZ;
    vc_check(adr(&x[i]) == w && adr(&cx[i]) == w && adr(&x.at(i)) == w && adr(&cx.at(i)) == w, "C04: every accessor gives the element at the position, modulo the size");
  }
  static void access() { start(); u64 at = place<B>("at"); B& x = *new ((void*)at) B(); u64 s = vc_snap(); layout(x, at); vc_reach("accessed"); u64 i = vc_any("i"); Val v = anyval(); E e = mk(v); u64 d = adr(x.data());
    if (vc_any("which") & 1) x[i] = e; else x.at(i) = e;
    u64 j = i % N * SZ; cells("C04: assigning to an element changes it alone", d, N * SZ, [=](u64 o) { return ite((o >= j) & (o < j + SZ), vcell(v, (o / CELL) % CPE), vc_hload_at(s, d + o)); }); around<B>(s, at); }
  static void fill() { start(); u64 at = place<B>("at"); Val v = anyval(); E e = mk(v); u64 s = vc_snap(); inv_fill(v, s); B& x = *new ((void*)at) B((const E&)e); vc_inv_clear(); vc_reach("filled"); layout(x, at);
    cells("C04: every element is the value given", adr(x.data()), N * SZ, [=](u64 o) { return vcell(v, (o / CELL) % CPE); }); around<B>(s, at); }
  static void list() { start(); u64 at = place<B>("at"), m = vc_any("m"); vc_assume(m <= N); u64 src = source(m), s = vc_snap(); std::initializer_list<E> il((const E*)src, m); inv_copy(s, src); B& x = *new ((void*)at) B(il); vc_inv_clear(); vc_reach("list"); layout(x, at);
    cells("C04: the elements are those of the list", adr(x.data()), m * SZ, OLD(s, src)); around<B>(s, at); }
  static void range() { start(); u64 at = place<B>("at"); u64 src = source(N), s = vc_snap(); inv_copy(s, src); B& x = *new ((void*)at) B((const E*)src, (const E*)src + N); vc_inv_clear(); vc_reach("range"); layout(x, at);
    cells("C04: the elements are those of the range", adr(x.data()), N * SZ, OLD(s, src)); around<B>(s, at); }
  static void assign() { start(); u64 at = place<B>("at"); u64 src = source(N); B& x = *new ((void*)at) B(); u64 s = vc_snap(); inv_copy(s, src); x.assign((const E*)src, (const E*)src + N); vc_inv_clear(); vc_reach("assigned"); layout(x, at);
    cells("C04: the elements are those of the range", adr(x.data()), N * SZ, OLD(s, src)); around<B>(s, at); }
  template<int K> static void copy() { start(); u64 ay = place<B>("ay"); B& y = *new ((void*)ay) B(); u64 at = place<B>("at"), yd = adr(y.data()); B* px = K >= 2 ? new ((void*)at) B() : (B*)at; u64 s = vc_snap(); vc_gset("srcsize", 0, N * SZ); inv_copy(s, yd);
    if (K == 0) new ((void*)at) B((const B&)y); else if (K == 1) new ((void*)at) B(std::move(y)); else if (K == 2) *px = (const B&)y; else *px = std::move(y);
    vc_inv_clear(); vc_reach("copied"); B& x = *px; layout(x, at);
    cells("C04: the copy has the elements of the source", adr(x.data()), N * SZ, OLD(s, yd)); cells("C04: the source is unchanged", yd, N * SZ, OLD(s, yd)); around<B>(s, at);
    u64 i = vc_any("i"); vc_assume(i < N); Val v = anyval(); ((E*)adr(x.data()))[i] = mk(v); cells("C04: copies are independent", yd, N * SZ, OLD(s, yd)); }
  static void self() { start(); u64 at = place<B>("at"); B& x = *new ((void*)at) B(); u64 s = vc_snap(), d = adr(x.data()); vc_gset("srcsize", 0, N * SZ); inv_copy(s, d); x = (const B&)x; vc_inv_clear(); vc_reach("assigned"); cells("C04: self-assignment changes nothing", d, N * SZ, OLD(s, d)); around<B>(s, at); }
};
#define BUF(N) H(b_access_##N) { BT<N>::access(); } H(b_fill_##N) { BT<N>::fill(); } H(b_list_##N) { BT<N>::list(); } H(b_range_##N) { BT<N>::range(); } H(b_assign_##N) { BT<N>::assign(); } \
  H(b_copy_##N) { BT<N>::copy<0>(); } H(b_move_##N) { BT<N>::copy<1>(); } H(b_copy_assign_##N) { BT<N>::copy<2>(); } H(b_move_assign_##N) { BT<N>::copy<3>(); } H(b_self_##N) { BT<N>::self(); }
BUF(1) BUF(2) BUF(20) BUF(3) BUF(8) BUF(100)
