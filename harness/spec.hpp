// Independent statement of the wire format (no library code is used in here).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include <upd/format.hpp>
#include <upd/type.hpp>
#include "vp.h"

namespace spec {
using upd::endianess;
using upd::signed_mode;
using u64 = std::uint64_t;
using i64 = std::int64_t;

template<endianess E, signed_mode S>
struct fmt {
  static constexpr endianess e = E;
  static constexpr signed_mode s = S;
};

constexpr u64 mask(unsigned bytes) { return bytes >= 8 ? ~0ull : (1ull << (8 * bytes)) - 1; }
constexpr u64 topbit(unsigned bytes) { return 1ull << (8 * bytes - 1); }

// the code word of a value
template<typename T>
u64 code(T v, signed_mode m) {
  constexpr unsigned n = sizeof(T);
  if (!std::is_signed<T>::value) return (u64)v & mask(n);
  u64 x = (u64)(i64)v;
  bool neg = x >> 63;
  u64 mag = neg ? 0 - x : x;
  u64 r = 0;
  switch (m) {
  case signed_mode::SIGNED_MAGNITUDE: r = neg ? topbit(n) | mag : mag; break;
  case signed_mode::ONES_COMPLEMENT: r = neg ? mask(n) - mag : mag; break;
  case signed_mode::TWOS_COMPLEMENT: r = neg ? mask(n) - mag + 1 : mag; break;
  case signed_mode::OFFSET_BINARY: r = neg ? topbit(n) - mag : topbit(n) + mag; break;
  }
  return r & mask(n);
}
// the value of a code word
template<typename T>
T value(u64 c, signed_mode m) {
  constexpr unsigned n = sizeof(T);
  if (std::is_same<T, bool>::value) return c != 0;
  if (!std::is_signed<T>::value) return (T)c;
  bool top = c & topbit(n);
  u64 low = c & ~topbit(n) & mask(n); // without the top bit
  u64 x = 0;
  switch (m) {
  case signed_mode::SIGNED_MAGNITUDE: x = top ? 0 - low : low; break;
  case signed_mode::ONES_COMPLEMENT: x = top ? 0 - (mask(n) - c) : low; break;
  case signed_mode::TWOS_COMPLEMENT: x = top ? low - topbit(n) : low; break;
  case signed_mode::OFFSET_BINARY: x = top ? low : 0 - (topbit(n) - low); break;
  }
  return (T)(i64)x;
}
template<typename T>
bool representable(T v, signed_mode m) {
  return !(std::is_signed<T>::value && v == std::numeric_limits<T>::min() &&
           (m == signed_mode::SIGNED_MAGNITUDE || m == signed_mode::ONES_COMPLEMENT));
}
// byte number i of a code word of n bytes
inline std::uint8_t byte_of(u64 c, std::size_t i, std::size_t n, endianess e) {
  return (std::uint8_t)(c >> (8 * (e == endianess::LITTLE ? i : n - 1 - i)));
}
inline void put(upd::byte_t *p, u64 c, std::size_t n, endianess e) {
  for (std::size_t i = 0; i < n; i++) p[i] = byte_of(c, i, n, e);
}
inline u64 word(const upd::byte_t *p, std::size_t n, endianess e) {
  u64 c = 0;
  for (std::size_t i = 0; i < n; i++) c |= (u64)p[i] << (8 * (e == endianess::LITTLE ? i : n - 1 - i));
  return c;
}
template<typename F, typename T>
void enc(upd::byte_t *p, T v) { put(p, code(v, F::s), sizeof(T), F::e); }
template<typename F, typename T>
T dec(const upd::byte_t *p) { return value<T>(word(p, sizeof(T), F::e), F::s); }

// branch-free equality of byte ranges
inline bool same(const upd::byte_t *a, const upd::byte_t *b, std::size_t n) {
  unsigned d = 0;
  for (std::size_t i = 0; i < n; i++) d |= (unsigned)(a[i] ^ b[i]);
  return d == 0;
}
template<typename It>
bool same_it(It a, const upd::byte_t *b, std::size_t n) {
  unsigned d = 0;
  for (std::size_t i = 0; i < n; i++) d |= (unsigned)((upd::byte_t)*a++ ^ b[i]);
  return d == 0;
}

constexpr auto LE = endianess::LITTLE;
constexpr auto BE = endianess::BIG;
constexpr auto SM = signed_mode::SIGNED_MAGNITUDE;
constexpr auto OC = signed_mode::ONES_COMPLEMENT;
constexpr auto TC = signed_mode::TWOS_COMPLEMENT;
constexpr auto OB = signed_mode::OFFSET_BINARY;

// f<fmt>() for the eight formats
#define SPEC_ALL_FORMATS(F, ...)                                                                                        \
  do {                                                                                                                 \
    using namespace spec;                                                                                              \
    F<fmt<LE, SM> __VA_OPT__(,) __VA_ARGS__>(); F<fmt<LE, OC> __VA_OPT__(,) __VA_ARGS__>();                             \
    F<fmt<LE, TC> __VA_OPT__(,) __VA_ARGS__>(); F<fmt<LE, OB> __VA_OPT__(,) __VA_ARGS__>();                             \
    F<fmt<BE, SM> __VA_OPT__(,) __VA_ARGS__>(); F<fmt<BE, OC> __VA_OPT__(,) __VA_ARGS__>();                             \
    F<fmt<BE, TC> __VA_OPT__(,) __VA_ARGS__>(); F<fmt<BE, OB> __VA_OPT__(,) __VA_ARGS__>();                             \
  } while (0)

#define SPEC_INT_TYPES(X)                                                                                              \
  X(bool, bool) X(char, char) X(schar, signed char) X(uchar, unsigned char) X(wchar, wchar_t) X(char16, char16_t)      \
  X(char32, char32_t) X(short, short) X(ushort, unsigned short) X(int, int) X(uint, unsigned int) X(long, long)         \
  X(ulong, unsigned long) X(llong, long long) X(ullong, unsigned long long)
template<typename T>
T any_representable(signed_mode m) {
  T v = vp_any<T>();
  vp_assume(representable(v, m));
  return v;
}
} // namespace spec

// ---- composite types: arrays element by element in index order, user types as their declared members
namespace spec {
template<typename T, typename = void>
struct wire; // size, pack<F>(p, v), equal(a, b), any<F>(), unpack<F>(p)
template<typename T>
struct wire<T, typename std::enable_if<std::is_integral<T>::value>::type> {
  static constexpr std::size_t size = sizeof(T);
  template<typename F> static void pack(upd::byte_t *p, const T &v) { enc<F>(p, v); }
  static bool equal(const T &a, const T &b) { return a == b; }
  template<typename F> static void any(T &v) { v = any_representable<T>(F::s); }
  static bool rep(const T &v, signed_mode m) { return representable(v, m); }
  template<typename F> static void unpack(const upd::byte_t *p, T &v) { v = dec<F, T>(p); }
  static void log(const T &v) { vp_log((u64)v); }
};
template<typename T, std::size_t N>
struct wire<T[N], void> {
  static constexpr std::size_t size = N * wire<T>::size;
  template<typename F> static void pack(upd::byte_t *p, const T (&v)[N]) {
    for (std::size_t i = 0; i < N; i++) wire<T>::template pack<F>(p + i * wire<T>::size, v[i]);
  }
  template<typename A, typename B> static bool equal(const A &a, const B &b) { // T[N] or std::array<T, N>
    bool r = true;
    for (std::size_t i = 0; i < N; i++) r &= wire<T>::equal(a[i], b[i]);
    return r;
  }
  template<typename F> static void any(T (&v)[N]) {
    for (std::size_t i = 0; i < N; i++) wire<T>::template any<F>(v[i]);
  }
  template<typename F> static void unpack(const upd::byte_t *p, T (&v)[N]) {
    for (std::size_t i = 0; i < N; i++) wire<T>::template unpack<F>(p + i * wire<T>::size, v[i]);
  }
  static bool rep(const T (&v)[N], signed_mode m) { bool r = true; for (auto &e : v) r &= wire<T>::rep(e, m); return r; }
  static void log(const T (&v)[N]) { for (auto &e : v) wire<T>::log(e); }
};
template<typename T, std::size_t N>
struct wire<std::array<T, N>, void> {
  static constexpr std::size_t size = N * wire<T>::size;
  template<typename F> static void pack(upd::byte_t *p, const std::array<T, N> &v) {
    for (std::size_t i = 0; i < N; i++) wire<T>::template pack<F>(p + i * wire<T>::size, v[i]);
  }
  static bool equal(const std::array<T, N> &a, const std::array<T, N> &b) {
    bool r = true;
    for (std::size_t i = 0; i < N; i++) r &= wire<T>::equal(a[i], b[i]);
    return r;
  }
  template<typename F> static void any(std::array<T, N> &v) {
    for (std::size_t i = 0; i < N; i++) wire<T>::template any<F>(v[i]);
  }
  template<typename F> static void unpack(const upd::byte_t *p, std::array<T, N> &v) {
    for (std::size_t i = 0; i < N; i++) wire<T>::template unpack<F>(p + i * wire<T>::size, v[i]);
  }
  static bool rep(const std::array<T, N> &v, signed_mode m) { bool r = true; for (auto &e : v) r &= wire<T>::rep(e, m); return r; }
  static void log(const std::array<T, N> &v) { for (auto &e : v) wire<T>::log(e); }
};
template<typename T> std::size_t wire_size() { return wire<T>::size; }

template<typename... Ts> struct sum_size { static constexpr std::size_t value = 0; };
template<typename T, typename... Ts>
struct sum_size<T, Ts...> { static constexpr std::size_t value = wire<T>::size + sum_size<Ts...>::value; };

// packs values one after the other
template<typename F> void pack_all(upd::byte_t *) {}
template<typename F, typename T, typename... Ts>
void pack_all(upd::byte_t *p, const T &v, const Ts &...vs) {
  wire<T>::template pack<F>(p, v);
  pack_all<F>(p + wire<T>::size, vs...);
}
template<std::size_t I, typename... Ts> struct nth;
template<typename T, typename... Ts> struct nth<0, T, Ts...> { using type = T; };
template<std::size_t I, typename T, typename... Ts> struct nth<I, T, Ts...> : nth<I - 1, Ts...> {};
template<std::size_t I, typename... Ts> struct off;
template<typename... Ts> struct off<0, Ts...> { static constexpr std::size_t value = 0; };
template<typename T, typename... Ts> struct off<0, T, Ts...> { static constexpr std::size_t value = 0; };
template<std::size_t I, typename T, typename... Ts>
struct off<I, T, Ts...> { static constexpr std::size_t value = wire<T>::size + off<I - 1, Ts...>::value; };
template<std::size_t... Is> struct seq {};
template<std::size_t N, std::size_t... Is> struct mkseq : mkseq<N - 1, N - 1, Is...> {};
template<std::size_t... Is> struct mkseq<0, Is...> { using type = seq<Is...>; };
// Holds one value of each type, symbolic.
template<typename... Ts> struct values;
template<> struct values<> { template<typename F> void any() {} };
template<typename T, typename... Ts> struct values<T, Ts...> {
  T v; values<Ts...> rest;
  template<typename F> void any() { wire<T>::template any<F>(v); rest.template any<F>(); }
};
template<std::size_t I> struct pick {
  template<typename T, typename... Ts> static auto get(values<T, Ts...> &x) -> decltype(pick<I - 1>::get(x.rest)) { return pick<I - 1>::get(x.rest); }
};
template<> struct pick<0> { template<typename T, typename... Ts> static T &get(values<T, Ts...> &x) { return x.v; } };


template<typename F> void pack_values(upd::byte_t *, values<> &) {}
template<typename F, typename T, typename... Ts> void pack_values(upd::byte_t *p, values<T, Ts...> &x) {
  wire<T>::template pack<F>(p, x.v);
  pack_values<F>(p + wire<T>::size, x.rest);
}
template<typename T, typename X> bool eq(const T &a, const X &b) { return wire<T>::equal(a, b); }

} // namespace spec
