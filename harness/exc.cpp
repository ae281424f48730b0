// C25: callbacks that throw.
#define RPC_THROWS
#include "stream.hpp"
#include "user.hpp"
template<typename F> using small = ring<F, void(), i16(u8), void(u16)>;
template<typename F> using mixed = ring<F, ll(bool), u32(), std::array<i16, 2>(std::array<u8, 3>, i8)>;
template<typename F> using exts = ring<F, vec(tiny), void(cached)>;

// A parameter that owns memory, to be released whatever happens
static int g_owned;
struct owner {
  u8 *p;
  explicit owner(u8 v) : p{new u8(v)} { g_owned++; }
  owner(const owner &o) : p{new u8(*o.p)} { g_owned++; }
  owner(owner &&o) : p{o.p} { o.p = nullptr; g_owned++; }
  owner &operator=(owner o) { std::swap(p, o.p); return *this; }
  ~owner() { delete p; g_owned--; }
  owner() : owner(0) {}
};
template<> struct upd_extension<owner> {
  template<typename V> static void serialize(const owner &o, V &view) { view.template set<0>(*o.p); }
  static owner unserialize(u8 v) { return owner(v); }
};
namespace spec {
template<> struct wire<owner> {
  static constexpr std::size_t size = 1;
  template<typename F> static void pack(upd::byte_t *p, const owner &v) { p[0] = *v.p; }
  template<typename F> static void unpack(const upd::byte_t *p, owner &v) { *v.p = p[0]; }
  static bool rep(const owner &, signed_mode) { return true; }
};
}
template<typename F> using owners = ring<F, owner(owner, u8), void(const owner &), owner()>;

template<typename Go> status attempt(Go &&go) {
  upd::packet_status got{};
  try {
    got = go();
  } catch (boom &b) {
    vp_assert(b.code == g_code, "the exception arrives unchanged");
    return THROWN;
  } catch (...) {
    vp_assert(false, "the exception arrives with its type");
  }
  return is(got, RESOLVED) ? RESOLVED : is(got, DROPPED) ? DROPPED : LOADING;
}
// one packet, fed in any way; out receives what operator() writes
template<typename R, typename S, typename D> void one(S &s, D &d, bool separate, unsigned hows) {
  packet<R> p;
  any_packet(p);
  status want = LOADING, got = LOADING;
  unsigned how = vp_choose(hows);
  std::size_t from = how == 0 ? p.len : how == 1 ? vp_choose(p.len) : 0;
  for (std::size_t i = 0; i < from; i++) {
    want = s.put(p.bytes[i]);
    got = attempt([&]() { return d.put(p.bytes[i]); });
    vp_assert(got == want, "the exception comes out exactly when the last byte of its packet goes in");
  }
  if (from < p.len) {
    for (std::size_t i = from; i < p.len; i++) want = s.put(p.bytes[i]);
    std::size_t n = 0, m = 0;
    byte_t out[64], expected[64];
    const byte_t *b = p.bytes + from;
    switch (how) {
    case 1: got = attempt([&]() { return d.read_from(source{b, &n}); }); break;
    case 2: got = attempt([&]() { return d << b; }); n = p.len; break;
    case 3: got = attempt([&]() { return d(source{b, &n}, sink{out, &m, 64}); }); break;
    default: got = attempt([&]() { return d(b, sink{out, &m, 64}); }); n = p.len;
    }
    vp_assert(got == want && n == p.len - from, "the exception comes out of whatever fed the dispatcher");
    if (how >= 3) {
      std::size_t e = 0;
      if (want == RESOLVED) while (s.loaded()) expected[e++] = s.get();
      vp_assert(m == e && same(out, expected, e), "nothing is written for a request that threw");
    }
  }
  if (want == THROWN) { vp_assert(!d.is_loaded() && d.get() == 0, "no response is pending"); vp_cover("thrown"); }
  vp_assert(d.is_loaded() == s.loaded(), "loaded");
  if (!separate || vp_choose(2)) drain(s, d);
}
template<typename R, typename D> void throwing(unsigned packets, bool separate, unsigned hows = 5) {
  using F = typename R::format;
  std::size_t live = vp_live();
  {
    session<R> s;
    journal j;
    new_pool<F>();
    rpc::start<F>(j);
    g_throw = vp_choose(packets);
    g_code = vp_any<u32>();
    D *d = new D;
    for (unsigned i = 0; i < packets; i++) one<R>(s, *d, separate, i ? 2 : hows);
    g_throw = ~0u;
    packet<R> p;
    fill(p, 0);
    put_all<R>(s, *d, p);
    drain(s, *d);
    vp_assert(j == s.log, "the calls");
    delete d;
  }
  vp_assert(vp_live() == live && g_owned == 0, "no leak");
  vp_cover("throwing");
}
// plain dispatchers, actions, and actions taken out of a dispatcher
template<typename R, typename D> void throwing_plain(unsigned packets) {
  using F = typename R::format;
  std::size_t live = vp_live();
  {
    session<R> s;
    journal j;
    new_pool<F>();
    rpc::start<F>(j);
    g_throw = vp_choose(packets);
    g_code = vp_any<u32>();
    D d;
    for (unsigned i = 0; i < packets; i++) {
      packet<R> p;
      known_packet(p);
      status want = LOADING, got = RESOLVED;
      for (std::size_t b = 0; b < p.len; b++) want = s.put(p.bytes[b]);
      std::size_t n = 0, m = 0, idx = 0;
      byte_t out[64], expected[64];
      unsigned how = vp_choose(3);
      try {
        if (how == 0) idx = d(source{p.bytes, &n}, sink{out, &m, 64});
        else if (how == 1) {
          auto *a = d.get_action(source{p.bytes, &n});
          idx = p.k;
          (*a)(source{p.bytes + R::isize, &n}, sink{out, &m, 64});
        } else {
          idx = p.k;
          n = R::isize;
          d[(typename R::index_t)p.k](source{p.bytes + R::isize, &n}, sink{out, &m, 64});
        }
      } catch (boom &b) {
        vp_assert(b.code == g_code, "the exception arrives unchanged");
        got = THROWN;
      }
      vp_assert(got == want && n == p.len, "the exception comes out of the dispatcher or action");
      std::size_t e = 0;
      if (want == RESOLVED) while (s.loaded()) expected[e++] = s.get();
      vp_assert(m == e && same(out, expected, e), "nothing is written for a request that threw");
      if (got == RESOLVED) vp_assert(idx == p.k, "index");
    }
    vp_assert(j == s.log, "the calls");
  }
  vp_assert(vp_live() == live && g_owned == 0, "no leak");
  vp_cover("throwing plain");
}
#ifndef PACKETS
#define PACKETS 2
#endif
using LT = fmt<LE, TC>; using BS = fmt<BE, SM>; using LO = fmt<LE, OC>; using BB = fmt<BE, OB>;
VP_CASE(dbl_any) { using R = small<LT>; throwing<R, dbl<R, ANY>>(PACKETS, true); }
VP_CASE(dbl_weak) { using R = small<BS>; throwing<R, dbl<R, WEAK>>(PACKETS, true); }
VP_CASE(sgl_any) { using R = small<BB>; throwing<R, single<R, ANY>>(PACKETS, false); }
VP_CASE(sgl_weak) { using R = small<LO>; throwing<R, single<R, WEAK>>(PACKETS, false); }
VP_CASE(dbl_mixed) { using R = mixed<BB>; throwing<R, dbl<R, ANY>>(PACKETS, true, 2); }
VP_CASE(sgl_mixed) { using R = mixed<LO>; throwing<R, single<R, WEAK>>(PACKETS, false, 3); }
VP_CASE(cust_any) { using R = exts<BS>; throwing<R, custom<plain<R, ANY>, 4, 7>>(PACKETS, true, 2); }
VP_CASE(cust_weak) { using R = exts<LT>; throwing<R, custom<plain<R, WEAK>, 4, 7>>(PACKETS, true, 3); }
VP_CASE(own_dbl) { using R = owners<LT>; throwing<R, dbl<R, WEAK>>(PACKETS, true); }
VP_CASE(own_sgl) { using R = owners<BB>; throwing<R, single<R, ANY>>(PACKETS, false); }
VP_CASE(plain_any) { throwing_plain<small<LT>, plain<small<LT>, ANY>>(2); }
VP_CASE(plain_any2) { throwing_plain<owners<BS>, plain<owners<BS>, ANY>>(2); }
VP_CASE(plain_weak) { throwing_plain<mixed<BB>, plain<mixed<BB>, WEAK>>(2); }
VP_CASE(plain_weak2) { throwing_plain<owners<LO>, plain<owners<LO>, WEAK>>(2); }

// replaced by callbacks that throw, owned by the dispatcher
struct thrower { u16 *count; i16 operator()(u8 x) { ++*count; if (x & 1) throw boom{g_code}; return x; } };
template<typename R, typename D> void replaced() {
  std::size_t live = vp_live();
  {
    journal j;
    new_pool<typename R::format>();
    rpc::start<typename R::format>(j);
    u16 count = 0;
    g_code = vp_any<u32>();
    D d;
    d.template replace<1>(thrower{&count});
    for (u16 i = 0; i < 3; i++) {
      u8 x = vp_any<u8>();
      byte_t in[2] = {1, x};
      upd::packet_status got{};
      bool thrown = false;
      try {
        vp_assert(is(d.put(in[0]), LOADING), "loading");
        got = d.put(in[1]);
      } catch (boom &b) { thrown = b.code == g_code; }
      vp_assert(count == i + 1 && thrown == ((x & 1) != 0) && (thrown || is(got, RESOLVED)) && d.is_loaded() == !thrown, "a replaced action throws");
      if (!thrown) {
        byte_t want[2];
        wire<i16>::pack<typename R::format>(want, (i16)x);
        vp_assert(d.get() == want[0] && d.get() == want[1] && !d.is_loaded(), "a replaced action answers");
      }
    }
  }
  vp_assert(vp_live() == live, "no leak");
  vp_cover("replaced");
}
VP_CASE(replaced_dbl) { using R = small<LT>; replaced<R, dbl<R, ANY>>(); }
VP_CASE(replaced_sgl) { using R = small<BB>; replaced<R, single<R, ANY>>(); }
