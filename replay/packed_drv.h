#pragma once
#include "drv.h"
#include "ktl/containers/packed_ptr.h"
namespace pkd {
template<size_t B, size_t A, class I> void one() {
  typedef char* P; typedef ktl::packed_ptr<P, B, A> K; u64 mask = B == 64 ? ~(u64)0 : ((u64)1 << B) - 1;
  auto ptr = [] { u64 p; switch (below(5)) { case 0: p = 0; break; case 1: p = ~(u64)0; break; case 2: p = (u64)1 << below(64); break; default: p = rnd(); } return (P)(p & ~((u64)A - 1)); };
  auto in = [] { switch (below(5)) { case 0: return (I)0; case 1: return (I)~(u64)0; case 2: return (I)((u64)1 << below(64)); case 3: return (I)below(4); } return (I)rnd(); };
  P p = ptr(), q = ptr(); I v = in(), w = in(); step("bits %zu align %zu int %zu: %p %llu then %p %llu", B, A, sizeof(I), p, (unsigned long long)v, q, (unsigned long long)w);
  auto is = [&](const K& k, P p, I v, const char* what) { u64 m = (u64)v & mask; CK("C08", k.get_ptr() == p, "%s: the pointer is %p instead of %p", what, k.get_ptr(), p); CK("C08", k.template get_int<I>() == (I)m && k.template get_int<u64>() == m, "%s: the integer is %llu instead of %llu", what, (unsigned long long)k.template get_int<u64>(), (unsigned long long)m); CK("C08", (bool)k == (p || m), "%s: conversion to bool", what); };
  K k(p, v); is(k, p, v, "constructed"); K c(k), d; is(d, nullptr, 0, "default"); d = k; is(c, p, v, "copied"); is(d, p, v, "assigned");
  for (int i = 0; i < 3; i++) { k.set_ptr(q); is(k, q, v, "pointer set"); k.set_int(w); is(k, q, w, "integer set"); q = ptr(); k.set_int(v = in()); k.set_ptr(q); is(k, q, v, "both set"); w = in(); } is(c, p, c.template get_int<I>(), "the copy");
}
#define PT(B, A) TEST("packed " #B " " #A, (one<B, A, uint8_t>(), one<B, A, uint16_t>(), one<B, A, uint32_t>(), one<B, A, u64>(), one<B, A, bool>()))
PT(0, 1) PT(0, 8) PT(1, 2) PT(1, 8) PT(2, 4) PT(2, 16) PT(3, 8) PT(4, 16) PT(5, 64) PT(6, 64) PT(8, 4096) PT(12, 4096) PT(9, (1 << 20)) PT(20, (1 << 20)) PT(31, (1ull << 31)) PT(32, (1ull << 32)) PT(33, (1ull << 40))
}
