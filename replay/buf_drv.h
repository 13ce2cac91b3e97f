#pragma once
#include "vec_drv.h"
#include "ktl/containers/trivial_buffer.h"
namespace bfd {
template<class T, size_t N> void buf() {
  typedef ktl::trivial_buffer<T, N> B; std::vector<T> m = vcd::some<T>(N); std::unique_ptr<B> x; int k = below(4); step("construct %d", k);
  struct Pair { unsigned char pad[1]; B b; }; 
  switch (k) { case 0: x.reset(new B(m[0])); m.assign(N, m[0]); break; case 1: { size_t c = below(N + 1); std::vector<T> l(m.begin(), m.begin() + c); x.reset(new B(vcd::ilist(l))); for (size_t i = 0; i < c; i++) CK("C04", vcd::same<T>((*x)[i], m[i]), "element %zu is not that of the list", i); for (size_t i = c; i < N; i++) (*x)[i] = m[i]; break; } case 2: x.reset(new B((const T*)m.data(), (const T*)m.data() + N)); break; default: x.reset(new B()); x->assign((const T*)m.data(), (const T*)m.data() + N); }
  auto check = [&](B& b, const std::vector<T>& m, const char* w) { const B& c = b; CK("C04", b.size() == N && c.size() == N, "size"); CK("C04", ((u64)b.data() % alignof(T)) == 0 && (char*)b.data() >= (char*)&b && (char*)(b.data() + N) <= (char*)(&b + 1), "the elements are not aligned inside the buffer"); for (size_t i = 0; i < N; i++) { u64 j = i + (chance(30) ? N * below(1000) : 0); CK("C04", vcd::same<T>(b[j], m[i]) && vcd::same<T>(c[j], m[i]) && vcd::same<T>(b.at(j), m[i]) && vcd::same<T>(c.at(j), m[i]) && vcd::same<T>(b.data()[i], m[i]) && vcd::same<T>(c.data()[i], m[i]) && vcd::same<T>(b.begin()[i], m[i]) && vcd::same<T>(c.begin()[i], m[i]) && vcd::same<T>(b.rbegin()[i], m[N - 1 - i]) && vcd::same<T>(c.rbegin()[i], m[N - 1 - i]), "%s: element %zu (index %llu) is wrong", w, i, (unsigned long long)j); } CK("C04", b.end() - b.begin() == N && c.end() - c.begin() == N && b.rend() - b.rbegin() == N && c.rend() - c.rbegin() == N, "iterators do not span the elements");
    u64 r = rnd(); CK("C04", &b[r] == b.data() + r % N && &c.at(r) == c.data() + r % N && &b.at(r) == b.data() + r % N && &c[r] == c.data() + r % N, "index %llu is not taken modulo the size", (unsigned long long)r); };
  check(*x, m, "after construction"); 
  for (int i = 0; i < 6; i++) { size_t j = below(N); T t = vcd::any<T>(); switch (below(4)) { case 0: (*x)[j + N * below(5)] = t; break; case 1: x->at(j) = t; break; case 2: x->data()[j] = t; break; default: x->rbegin()[N - 1 - j] = t; } m[j] = t; step("element %zu = value", j); check(*x, m, "after assigning to an element"); }
  { std::unique_ptr<Pair> p(new Pair); CK("C04", ((u64)p->b.data() % alignof(T)) == 0, "elements of a buffer inside another object are not aligned"); }
  std::unique_ptr<B> y; std::vector<T> m2 = m; int c = below(4); step("copy %d", c); switch (c) { case 0: y.reset(new B((const B&)*x)); break; case 1: y.reset(new B(std::move(*x))); break; case 2: y.reset(new B()); *y = (const B&)*x; break; default: y.reset(new B(m[0])); *y = std::move(*x); }
  check(*y, m2, "the copy"); check(*x, m, "the source of a copy"); (*y)[below(N)] = vcd::any<T>(); check(*x, m, "the source after changing the copy"); { B& self = *x; self = (const B&)*x; check(*x, m, "after self-assignment"); }
}
#define BT(N) TEST("buffer of bytes " #N, (buf<uint8_t, N>())) TEST("buffer of 8-byte elements " #N, (buf<u64, N>())) TEST("buffer of 12-byte elements " #N, (buf<vcd::Words, N>())) TEST("buffer of 5-byte elements " #N, (buf<vcd::Bytes<5>, N>()))
BT(1) BT(2) BT(3) BT(8) BT(100)
}
