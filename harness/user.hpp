// User-extended types whose in-memory size differs from their serialized size.
#pragma once
#include "spec.hpp"
#include <upd/tuple.hpp>

struct vec { std::int16_t x; std::uint8_t y; std::int32_t z; };            // padded: 8 bytes in memory, 7 on the wire
struct cached { long long squares[4]; std::uint8_t id; bool flag; };       // much larger in memory: 2 bytes on the wire
struct tiny { std::uint8_t v; };                                           // larger on the wire: 3 bytes
struct outer { vec v; std::uint8_t k; };                                   // holds another extended type: 8 bytes on the wire
struct withar { std::int16_t a[3]; std::uint8_t b; };                      // holds an array: 7 bytes on the wire
static_assert(sizeof(vec) == 8 && sizeof(cached) == 40 && sizeof(tiny) == 1 && sizeof(outer) == 12 && sizeof(withar) == 8, "");
inline cached make_cached(std::uint8_t id, bool flag) {
  cached c;
  for (int i = 0; i < 4; i++) c.squares[i] = (long long)id * i;
  c.id = id; c.flag = flag;
  return c;
}
template<> struct upd_extension<vec> {
  template<typename V> static void serialize(const vec &o, V &view) { upd::set<0>(view, o.x); upd::set<1>(view, o.y); upd::set<2>(view, o.z); }
  static vec unserialize(std::int16_t x, std::uint8_t y, std::int32_t z) { vec v; v.x = x; v.y = y; v.z = z; return v; }
};
template<> struct upd_extension<cached> {
  template<typename V> static void serialize(const cached &o, V &view) { view.template set<0>(o.id); view.template set<1>(o.flag); }
  static cached unserialize(std::uint8_t id, bool flag) { return make_cached(id, flag); }
};
template<> struct upd_extension<tiny> {
  template<typename V> static void serialize(const tiny &o, V &view) { view.template set<1>((std::int16_t)-(int)o.v); view.template set<0>(o.v); }
  static tiny unserialize(std::uint8_t hi, std::int16_t lo) { return tiny{(std::uint8_t)(lo == -(int)hi ? hi : hi ^ 0xff)}; }
};
template<> struct upd_extension<outer> {
  template<typename V> static void serialize(const outer &o, V &view) { view.template set<0>(o.v); view.template set<1>(o.k); }
  static outer unserialize(vec v, std::uint8_t k) { return outer{v, k}; }
};
template<> struct upd_extension<withar> {
  template<typename V> static void serialize(const withar &o, V &view) { view.template set<1>(o.b); view.template set<0>({{o.a[0], o.a[1], o.a[2]}}); }
  static withar unserialize(std::array<std::int16_t, 3> a, std::uint8_t b) { return withar{{a[0], a[1], a[2]}, b}; }
};

namespace spec {
template<> struct wire<vec> {
  static constexpr std::size_t size = 7;
  template<typename F> static void pack(upd::byte_t *p, const vec &v) { enc<F>(p, v.x); enc<F>(p + 2, v.y); enc<F>(p + 3, v.z); }
  static bool equal(const vec &a, const vec &b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
  template<typename F> static void any(vec &v) { v.x = any_representable<std::int16_t>(F::s); v.y = vp_any<std::uint8_t>(); v.z = any_representable<std::int32_t>(F::s); }
  template<typename F> static void unpack(const upd::byte_t *p, vec &v) { v.x = dec<F, std::int16_t>(p); v.y = p[2]; v.z = dec<F, std::int32_t>(p + 3); }
  static bool rep(const vec &v, signed_mode m) { return representable(v.x, m) & representable(v.z, m); }
  static void log(const vec &v) { vp_log((u64)v.x); vp_log(v.y); vp_log((u64)v.z); }
};
template<> struct wire<cached> {
  static constexpr std::size_t size = 2;
  template<typename F> static void pack(upd::byte_t *p, const cached &v) { p[0] = v.id; p[1] = v.flag; }
  static bool equal(const cached &a, const cached &b) { return (a.id == b.id) & (a.flag == b.flag) & (a.squares[3] == b.squares[3]); }
  template<typename F> static void any(cached &v) { auto id = vp_any<std::uint8_t>(); v = make_cached(id, vp_any<bool>()); }
  template<typename F> static void unpack(const upd::byte_t *p, cached &v) { v = make_cached(p[0], p[1] != 0); }
  static bool rep(const cached &, signed_mode) { return true; }
  static void log(const cached &v) { vp_log(v.id); vp_log(v.flag); }
};
template<> struct wire<tiny> {
  static constexpr std::size_t size = 3;
  template<typename F> static void pack(upd::byte_t *p, const tiny &v) { p[0] = v.v; enc<F>(p + 1, (std::int16_t)-(int)v.v); }
  static bool equal(const tiny &a, const tiny &b) { return a.v == b.v; }
  template<typename F> static void any(tiny &v) { v.v = vp_any<std::uint8_t>(); }
  template<typename F> static void unpack(const upd::byte_t *p, tiny &v) { v.v = (std::uint8_t)(dec<F, std::int16_t>(p + 1) == -(int)p[0] ? p[0] : p[0] ^ 0xff); }
  static bool rep(const tiny &, signed_mode) { return true; }
  static void log(const tiny &v) { vp_log(v.v); }
};
template<> struct wire<outer> {
  static constexpr std::size_t size = 8;
  template<typename F> static void pack(upd::byte_t *p, const outer &o) { wire<vec>::pack<F>(p, o.v); p[7] = o.k; }
  static bool equal(const outer &a, const outer &b) { return wire<vec>::equal(a.v, b.v) & (a.k == b.k); }
  template<typename F> static void any(outer &o) { wire<vec>::any<F>(o.v); o.k = vp_any<std::uint8_t>(); }
  template<typename F> static void unpack(const upd::byte_t *p, outer &o) { wire<vec>::unpack<F>(p, o.v); o.k = p[7]; }
  static bool rep(const outer &o, signed_mode m) { return wire<vec>::rep(o.v, m); }
  static void log(const outer &o) { wire<vec>::log(o.v); vp_log(o.k); }
};
template<> struct wire<withar> {
  static constexpr std::size_t size = 7;
  template<typename F> static void pack(upd::byte_t *p, const withar &o) { wire<std::int16_t[3]>::pack<F>(p, o.a); p[6] = o.b; }
  static bool equal(const withar &a, const withar &b) { return (a.a[0] == b.a[0]) & (a.a[1] == b.a[1]) & (a.a[2] == b.a[2]) & (a.b == b.b); }
  template<typename F> static void any(withar &o) { wire<std::int16_t[3]>::any<F>(o.a); o.b = vp_any<std::uint8_t>(); }
  template<typename F> static void unpack(const upd::byte_t *p, withar &o) { wire<std::int16_t[3]>::unpack<F>(p, o.a); o.b = p[6]; }
  static bool rep(const withar &o, signed_mode m) { return wire<std::int16_t[3]>::rep(o.a, m); }
  static void log(const withar &o) { wire<std::int16_t[3]>::log(o.a); vp_log(o.b); }
};
} // namespace spec
