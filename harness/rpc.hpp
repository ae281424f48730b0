// Callbacks that record their calls, and an independent model of what a session must do.
#pragma once
#include "spec.hpp"
#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
using namespace spec;
using upd::byte_t;
using i8 = std::int8_t; using u8 = std::uint8_t; using i16 = std::int16_t; using u16 = std::uint16_t;
using i32 = std::int32_t; using u32 = std::uint32_t;
typedef long long ll;
#define DUMMY(...) do { int d[] = {0, (__VA_ARGS__, 0)...}; (void)d; } while (0)

namespace rpc {
using canon = fmt<LE, TC>; // how calls are recorded, unrelated to the format under test

#ifndef RPC_CALLS
#define RPC_CALLS 6
#endif
#ifndef RPC_RETMAX
#define RPC_RETMAX 16
#endif
constexpr std::size_t LOGMAX = 1200;
struct journal {
  byte_t data[LOGMAX];
  std::size_t len = 0;
  unsigned calls = 0;
};
inline bool operator==(const journal &a, const journal &b) { return a.len == b.len && a.calls == b.calls && same(a.data, b.data, a.len); }

// What the n-th call of a session returns: fixed in advance, so that several sessions can be compared.
static byte_t g_pool[RPC_CALLS][RPC_RETMAX];
static journal *g_log;
static signed_mode g_mode;
template<typename F> void start(journal &j) { g_log = &j; g_mode = F::s; }
template<typename F> void new_pool() {
  for (auto &row : g_pool) vp_sym_bytes(row, RPC_RETMAX);
}

template<typename T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
template<typename T> void note(journal &j, const T &v) {
  wire<T>::template pack<canon>(j.data + j.len, v);
#ifdef RPC_DEFINED
  vp_assert_defined(j.data + j.len, wire<T>::size, "a callback gets no value made of uninitialised memory");
#endif
  j.len += wire<T>::size;
}
template<typename R> struct result {
  static R get(unsigned n) {
    R r;
    vp_assert(wire<R>::size <= RPC_RETMAX, "harness: pool rows too short");
    wire<R>::template unpack<canon>(g_pool[n % RPC_CALLS], r);
    vp_assume(wire<R>::rep(r, g_mode));
    return r;
  }
  template<typename F> static std::size_t respond(unsigned n, byte_t *out) {
    wire<R>::template pack<F>(out, get(n));
    return wire<R>::size;
  }
  static constexpr std::size_t size = wire<R>::size;
};
template<> struct result<void> {
  static void get(unsigned) {}
  template<typename F> static std::size_t respond(unsigned, byte_t *) { return 0; }
  static constexpr std::size_t size = 0;
};

// Results returned by reference, or const
template<typename T> struct result<T &> {
  using V = bare<T>;
  static T &get(unsigned n) {
    static V slots[RPC_CALLS];
    return slots[n % RPC_CALLS] = result<V>::get(n);
  }
  template<typename F> static std::size_t respond(unsigned n, byte_t *out) { return result<V>::template respond<F>(n, out); }
  static constexpr std::size_t size = result<V>::size;
};
template<typename T> struct result<const T> : result<T> {};

// Large results: a few bytes of the pool at the ends, the rest fixed
template<std::size_t N> struct result<std::array<u8, N>> {
  using A = std::array<u8, N>;
  static A get(unsigned n) {
    A a;
    for (std::size_t i = 0; i < N; i++) a[i] = i < 4 ? g_pool[n % RPC_CALLS][i] : i + 4 >= N ? g_pool[n % RPC_CALLS][4 + N - 1 - i] : (u8)(i * 3 + n);
    return a;
  }
  template<typename F> static std::size_t respond(unsigned n, byte_t *out) { wire<A>::template pack<F>(out, get(n)); return N; }
  static constexpr std::size_t size = N;
};

// The call which throws, if any
static unsigned g_throw = ~0u;
static u32 g_code;
struct boom { u32 code; };
inline void maybe_throw(unsigned n) {
#ifdef RPC_THROWS
  if (n == g_throw) throw boom{g_code};
#endif
  (void)n;
}

template<unsigned Id, typename Sig> struct cb;
template<unsigned Id, typename R, typename... As> struct cb<Id, R(As...)> {
  static R fn(As... as) {
    journal &j = *g_log;
    unsigned n = j.calls++;
    j.data[j.len++] = (byte_t)Id; j.data[j.len++] = (byte_t)(Id >> 8);
    DUMMY(note<bare<As>>(j, as));
    maybe_throw(n);
    return result<R>::get(n);
  }
  static constexpr std::size_t in = sum_size<bare<As>...>::value;
  static constexpr std::size_t out = result<R>::size;
  // the call this request must lead to
  template<typename F> static void expect(const byte_t *payload, journal &j) {
    j.calls++;
    j.data[j.len++] = (byte_t)Id; j.data[j.len++] = (byte_t)(Id >> 8);
    DUMMY(expect1<F, bare<As>>(payload, j));
  }
  template<typename F, typename T> static void expect1(const byte_t *&payload, journal &j) {
    T v;
    wire<T>::template unpack<F>(payload, v);
    note<T>(j, v);
    payload += wire<T>::size;
  }
  template<typename F> static std::size_t respond(unsigned n, byte_t *out) { return result<R>::template respond<F>(n, out); }
  using handle = upd::unevaluated<R (*)(As...), &cb<Id, R(As...)>::fn>;
};

template<std::size_t N> struct index_of { using type = typename std::conditional<(N < 256), u8, typename std::conditional<(N < 65536), u16, u32>::type>::type; };

// A keyring of callbacks with the given signatures, and its specification.
template<typename F, typename S, typename... Sigs> struct ring_impl;
template<typename F, std::size_t... Is, typename... Sigs>
struct ring_impl<F, seq<Is...>, Sigs...> {
  using format = F;
  using flist = upd::flist_t<typename cb<Is, Sigs>::handle...>;
  using keyring = upd::keyring<F::e, F::s, typename cb<Is, Sigs>::handle...>;
  static constexpr std::size_t n = sizeof...(Sigs);
  using index_t = typename index_of<n>::type;
  static constexpr std::size_t isize = sizeof(index_t);
  template<std::size_t I> using sig = typename nth<I, Sigs...>::type;
  template<std::size_t I> using callback = cb<I, sig<I>>;
  template<std::size_t I> static typename keyring::template key_t<typename callback<I>::handle> key() { return keyring{}.get(typename callback<I>::handle{}); }
  static std::size_t in(std::size_t i) { static const std::size_t t[] = {cb<Is, Sigs>::in...}; return t[i]; }
  static std::size_t out(std::size_t i) { static const std::size_t t[] = {cb<Is, Sigs>::out...}; return t[i]; }
  static std::size_t max_in() { std::size_t m = 0; for (std::size_t i = 0; i < n; i++) m = in(i) > m ? in(i) : m; return m; }
  static std::size_t max_out() { std::size_t m = 0; for (std::size_t i = 0; i < n; i++) m = out(i) > m ? out(i) : m; return m; }
  static void expect(std::size_t i, const byte_t *payload, journal &j) {
    static void (*const t[])(const byte_t *, journal &) = {&cb<Is, Sigs>::template expect<F>...};
    t[i](payload, j);
  }
  // callbacks replacing those of the keyring
  template<std::size_t I, unsigned V> using other = cb<I + 1000 * V, sig<I>>;
  static void expect_other(unsigned v, std::size_t i, const byte_t *payload, journal &j) {
    static void (*const t[][sizeof...(Sigs)])(const byte_t *, journal &) = {
        {&cb<Is, Sigs>::template expect<F>...}, {&cb<Is + 1000, Sigs>::template expect<F>...}, {&cb<Is + 2000, Sigs>::template expect<F>...}};
    t[v][i](payload, j);
  }
  static std::size_t respond(std::size_t i, unsigned n, byte_t *out) {
    static std::size_t (*const t[])(unsigned, byte_t *) = {&cb<Is, Sigs>::template respond<F>...};
    return t[i](n, out);
  }
  static u64 index(const byte_t *p) { return word(p, isize, F::e); }
  static void put_index(byte_t *p, u64 i) { put(p, i, isize, F::e); }
};
template<typename F, typename... Sigs> using ring = ring_impl<F, typename mkseq<sizeof...(Sigs)>::type, Sigs...>;

enum status { LOADING, DROPPED, RESOLVED, THROWN };
inline bool is(upd::packet_status s, status t) {
  return s == (t == LOADING ? upd::packet_status::LOADING_PACKET : t == DROPPED ? upd::packet_status::DROPPED_PACKET : upd::packet_status::RESOLVED_PACKET);
}

// What a buffered dispatcher must do, byte by byte.
template<typename R, bool Replaced> struct callbacks {
  static void expect(std::size_t i, const byte_t *payload, journal &j) { R::expect(i, payload, j); }
};
template<typename R> struct callbacks<R, true> {
  unsigned char which[R::n] = {};
  void expect(std::size_t i, const byte_t *payload, journal &j) { R::expect_other(which[i], i, payload, j); }
};
template<typename R, std::size_t INMAX = 64, std::size_t OUTMAX = 64, bool Replaced = false> struct session : callbacks<R, Replaced> {
  byte_t in[INMAX], out[OUTMAX];
  std::size_t got = 0, next = 0, bottom = 0, idx = 0;
  journal log;
  status put(byte_t b) {
    in[got++] = b;
    if (got < R::isize) return LOADING;
    if (got == R::isize) {
      idx = R::n;
      u64 x = R::index(in);
      for (std::size_t i = 0; i < R::n; i++)
        if (x == i) { idx = i; break; }
      if (idx == R::n) { got = 0; return DROPPED; }
    }
    if (got < R::isize + R::in(idx)) return LOADING;
    got = 0;
    this->expect(idx, in + R::isize, log);
    next = 0;
    bottom = 0;
    if (log.calls - 1 == g_throw) return THROWN;
    bottom = R::respond(idx, log.calls - 1, out);
    return RESOLVED;
  }
  bool loaded() const { return next != bottom; }
  byte_t get() { return next != bottom ? out[next++] : 0; }
};

template<typename R, upd::action_features P> using plain = upd::dispatcher<typename R::keyring, P>;
template<typename R, upd::action_features P> using single = upd::single_buffered_dispatcher<plain<R, P>>;
template<typename R, upd::action_features P> using dbl = upd::double_buffered_dispatcher<plain<R, P>>;
constexpr auto ANY = upd::action_features::ANY;
constexpr auto WEAK = upd::action_features::WEAK_REFERENCE;

// A user-defined buffered dispatcher: exactly sized separate heap buffers, so that overruns are seen.
template<typename Dispatcher, std::size_t IN, std::size_t OUT>
class custom : public upd::buffered_dispatcher<custom<Dispatcher, IN, OUT>, Dispatcher> {
  using base = upd::buffered_dispatcher<custom<Dispatcher, IN, OUT>, Dispatcher>;
  byte_t *m_in = new byte_t[IN], *m_out = new byte_t[OUT ? OUT : 1];
public:
  custom() {}
  custom(const custom &) = delete;
  ~custom() { delete[] m_in; delete[] m_out; }
  byte_t *ibuf_begin() { return m_in; }
  byte_t *obuf_begin() { return m_out; }
};
// The same with another base class, a virtual function, and its buffers inside.
struct other_base { u32 guard = 0xdeadbeef; virtual ~other_base() {} };
template<typename Dispatcher, std::size_t IN, std::size_t OUT>
class derived : public other_base, public upd::buffered_dispatcher<derived<Dispatcher, IN, OUT>, Dispatcher> {
  u32 m_before = 0x1234567;
  byte_t m_in[IN], m_mid = 0x5a, m_out[OUT ? OUT : 1];
public:
  ~derived() { vp_assert(this->guard == 0xdeadbeef && m_before == 0x1234567 && m_mid == 0x5a, "a user-defined dispatcher keeps its other members"); }
  byte_t *ibuf_begin() { return m_in; }
  byte_t *obuf_begin() { return m_out; }
};
} // namespace rpc
