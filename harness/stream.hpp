// Packets with symbolic contents, and every way of feeding and draining a dispatcher.
#pragma once
#include "rpc.hpp"
#include <array>
#include <list>
#include <utility>
#include <vector>
using namespace rpc;

struct sink { byte_t *p; std::size_t *n; std::size_t max; void operator()(byte_t b) { if (*n < max) p[*n] = b; ++*n; } };
struct source { const byte_t *p; std::size_t *n; byte_t operator()() { ++*n; return *p++; } };

// Any packet for callback k of R; k == R::n: any unknown index.
template<typename R, std::size_t MAX = 64> struct packet {
  byte_t bytes[MAX];
  std::size_t len = 0, k = 0;
  bool known() const { return k < R::n; }
};
template<typename R, std::size_t MAX = 64> void fill(packet<R, MAX> &p, std::size_t k) {
  p.k = k;
  if (k < R::n) {
    R::put_index(p.bytes, k);
    p.len = R::isize + R::in(k);
    if (R::in(k) <= 40) vp_sym_bytes(p.bytes + R::isize, R::in(k));
    else {
      for (std::size_t i = R::isize; i < p.len; i++) p.bytes[i] = (byte_t)(i * 7 + 3);
      vp_sym_bytes(p.bytes + R::isize, 2);
      vp_sym_bytes(p.bytes + p.len - 3, 3);
    }
  } else {
    vp_sym_bytes(p.bytes, R::isize);
    vp_assume(R::index(p.bytes) >= R::n);
    p.len = R::isize;
  }
}
template<typename R> bool has_unknown() { return true; }
template<typename R, std::size_t MAX = 64> void any_packet(packet<R, MAX> &p) {
  if (R::n <= 32) { fill(p, vp_choose(R::n + 1)); return; }
  const std::size_t some[] = {0, R::n - 2, R::n - 1, R::n};
  fill(p, some[vp_choose(4)]);
}
template<typename R, std::size_t MAX = 64> void known_packet(packet<R, MAX> &p) { fill(p, vp_choose(R::n)); }

// Feeding a buffered dispatcher and its model with the same bytes
template<typename R, typename S, typename D> status put(S &s, D &d, byte_t b) {
  status want = s.put(b);
  vp_assert(is(d.put(b), want), "the status of each byte: loading until the last byte of a packet, then resolved, or dropped on the last byte of an unknown index");
  return want;
}
template<typename R, typename S, typename D, typename P> void put_all(S &s, D &d, const P &p) {
  for (std::size_t i = 0; i < p.len; i++) {
    status t = put<R>(s, d, p.bytes[i]);
    vp_assert(t == (i + 1 < p.len ? LOADING : p.known() ? RESOLVED : DROPPED), "harness: model");
  }
}
// bytes [from, len) in one go
template<typename R, typename S, typename D, typename P> void read_rest(S &s, D &d, const P &p, std::size_t from, unsigned how) {
  status want = LOADING;
  for (std::size_t i = from; i < p.len; i++) want = s.put(p.bytes[i]);
  upd::packet_status got{};
  std::size_t n = 0;
  const byte_t *b = p.bytes + from;
  switch (how) {
  case 0: got = d.read_from(source{b, &n}); break;
  case 1: { auto f = [&]() { n++; return *b++; }; got = d.read_from(f); break; }
  case 2: got = d << source{b, &n}; break;
  case 3: got = d.read_from(b); n = p.len - from; break;
  default: { std::list<byte_t> l(b, b + (p.len - from)); got = d << l.begin(); n = p.len - from; }
  }
  vp_assert(n == p.len - from, "reading a packet consumes exactly its remaining bytes");
  vp_assert(is(got, want), "reading a packet returns resolved, or dropped for an unknown index");
}
template<typename R, typename S, typename D, typename P> void feed(S &s, D &d, const P &p) {
  unsigned mode = vp_choose(3);
  if (mode == 0) put_all<R>(s, d, p);
  else {
    std::size_t from = mode == 1 ? 0 : vp_choose(p.len);
    for (std::size_t i = 0; i < from; i++) put<R>(s, d, p.bytes[i]);
    read_rest<R>(s, d, p, from, 0);
  }
}
// Draining
template<typename S, typename D> void get1(S &s, D &d) {
  vp_assert(d.is_loaded() == s.loaded(), "loaded exactly while bytes of the response remain");
  byte_t w = s.get(), g = d.get();
  vp_assert(g == w, "each byte of the response comes out once and in order, and none past its end");
  vp_log(g);
}
template<typename S, typename D> void drain(S &s, D &d) {
  while (s.loaded()) get1(s, d);
  get1(s, d);
  vp_assert(!d.is_loaded(), "drained");
}
template<typename S, typename D> void drain_all(S &s, D &d, unsigned how) {
  byte_t want[400], *got = new byte_t[400];
  std::size_t n = 0, m = 0;
  while (s.loaded()) want[n++] = s.get();
  switch (how) {
  case 0: d.write_to(sink{got, &m, 400}); break;
  case 1: { auto f = [&](byte_t b) { got[m++] = b; }; d.write_to(f); break; }
  case 2: d >> sink{got, &m, 400}; break;
  case 3: for (std::size_t i = 0; i < 400; i++) got[i] = 0x5a;
          d.write_to(got);
          m = n;
          for (std::size_t i = n; i < n + 4; i++) vp_assert(got[i] == 0x5a, "nothing is written past the response");
          break;
  case 4: { std::vector<byte_t> v; d.write_to(std::back_inserter(v)); m = v.size(); for (std::size_t i = 0; i < m; i++) got[i] = v[i]; break; }
  default: { std::list<byte_t> l; d >> std::back_inserter(l); for (byte_t b : l) got[m++] = b; }
  }
  vp_assert(m == n, "the whole pending response comes out at once, and nothing else");
  vp_assert(same(want, got, n), "the pending response is the serialized return value");
  vp_assert(!d.is_loaded() && d.get() == 0, "nothing is left");
  delete[] got;
}
