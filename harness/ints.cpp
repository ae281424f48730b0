// C01 C02 C03: one integer, all types, byte orders and signed representations.
#include "spec.hpp"
#include <upd/tuple.hpp>
using namespace spec;
using upd::byte_t;

constexpr unsigned G = 3; // guard bytes on both sides

template<typename F, typename T>
void encode() {
  constexpr unsigned n = sizeof(T);
  T v = any_representable<T>(F::s);
  byte_t want[n];
  enc<F>(want, v);
  // through a tuple
  auto t = upd::make_tuple(upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}, v);
  vp_assert(t.size == n && t.end() - t.begin() == n, "an integer occupies exactly as many bytes as its type");
  vp_assert(same(t.begin(), want, n), "bytes of an integer are those of the declared format");
  vp_log(word(t.begin(), n, LE));
  // through a view amid other bytes
  byte_t buf[n + 2 * G], old[n + 2 * G];
  vp_sym_bytes(buf, sizeof buf);
  std::memcpy(old, buf, sizeof buf);
  auto w = upd::make_view<T>(upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}, &buf[G]);
  w.template set<0>(v);
  vp_assert(same(buf + G, want, n), "bytes written through a view are those of the declared format");
  vp_assert(same(buf, old, G) && same(buf + G + n, old + G + n, G), "writing a value touches no byte outside its slot");
  vp_cover("encoded");
}
template<typename F, typename T>
void roundtrip() {
  constexpr unsigned n = sizeof(T);
  T v = any_representable<T>(F::s), v2 = any_representable<T>(F::s);
  upd::tuple<F::e, F::s, T> t{v}, t2{v2};
  T back = t.template get<0>();
  vp_assert(back == v, "a value written then read is the same value");
  vp_log((u64)back);
  vp_assert((v == v2) == same(t.begin(), t2.begin(), n), "distinct values have distinct encodings");
  byte_t buf[n];
  vp_sym_bytes(buf, n);
  upd::tuple_view<byte_t *, F::e, F::s, T> w{buf};
  w.template set<0>(v);
  vp_assert(w.template get<0>() == v, "a value written then read through a view is the same value");
  t.template set<0>(v2);
  vp_assert(upd::get<0>(t) == v2, "a value set then read is the same value");
  vp_cover("round trip");
}
template<typename F, typename T>
void decode() {
  constexpr unsigned n = sizeof(T);
  byte_t *buf = new byte_t[n]; // nothing around it
  vp_sym_bytes(buf, n);
  T want = dec<F, T>(buf);
  byte_t old[n];
  std::memcpy(old, buf, n);
  upd::tuple_view<const byte_t *, F::e, F::s, T> w{buf};
  T got = w.template get<0>();
  vp_assert(got == want, "received bytes decode to the value the format assigns to them");
  T again = w.template get<0>();
  vp_assert(again == got, "decoding is deterministic");
  vp_assert(same(buf, old, n), "reading changes no byte");
  if (std::is_same<T, bool>::value) {
    byte_t raw;
    std::memcpy(&raw, &got, 1);
    vp_assert(raw <= 1, "a decoded bool is a valid bool");
  }
  upd::tuple<F::e, F::s, T> t;
  for (unsigned i = 0; i < n; i++) t[i] = buf[i];
  vp_assert(t.template get<0>() == want, "received bytes stored in a tuple decode to the same value");
  vp_log((u64)got);
  delete[] buf;
  vp_cover("decoded");
}

#ifdef CHECK
#define X(NAME, ...) VP_CASE(NAME) { SPEC_ALL_FORMATS(CHECK, __VA_ARGS__); }
SPEC_INT_TYPES(X)
#endif
