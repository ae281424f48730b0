// C22: every way of spelling an operation and of giving it a source or a sink.
#include "stream.hpp"
#include "user.hpp"
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
template<typename F> using ring1 = ring<F, u16(u8, i16), void(bool), vec(), std::array<u8, 3>(const i16 (&)[2]), i8(tiny)>;

// Iterators that count what goes through them
struct in_it {
  typedef std::input_iterator_tag iterator_category; typedef byte_t value_type; typedef std::ptrdiff_t difference_type; typedef const byte_t *pointer; typedef byte_t reference;
  const byte_t *bytes; std::size_t *n;
  struct proxy { byte_t b; byte_t operator*() const { return b; } };
  byte_t operator*() const { return bytes[*n]; }
  in_it &operator++() { ++*n; return *this; }
  proxy operator++(int) { return proxy{bytes[(*n)++]}; }
  bool operator==(const in_it &o) const { return n == o.n; }
  bool operator!=(const in_it &o) const { return n != o.n; }
};
struct out_it {
  typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference;
  byte_t *bytes; std::size_t *n;
  out_it &operator*() { return *this; }
  out_it &operator=(byte_t b) { if (*n < 64) bytes[*n] = b; ++*n; return *this; }
  out_it &operator++() { return *this; }
  out_it &operator++(int) { return *this; }
};
// Functors with a state of their own
struct own_src { const byte_t *p; std::size_t n; byte_t operator()() { return p[n++]; } };
struct own_sink { byte_t *p; std::size_t n; void operator()(byte_t b) { if (n < 64) p[n] = b; n++; } };
struct const_src { const byte_t *p; std::size_t *n; byte_t operator()() const { return p[(*n)++]; } };
struct const_sink { byte_t *p; std::size_t *n; void operator()(byte_t b) const { if (*n < 64) p[*n] = b; ++*n; } };
struct ref_sink { byte_t *p; std::size_t *n; void operator()(const byte_t &b) { if (*n < 64) p[*n] = b; ++*n; } };
static const byte_t *g_from; static std::size_t g_read; static byte_t *g_to; static std::size_t g_written;
static byte_t fetch() { return g_from[g_read++]; }
static void emit(byte_t b) { if (g_written < 64) g_to[g_written] = b; g_written++; }

constexpr unsigned SOURCES = 16, SINKS = 18;
// op(source) for the given kind of source over exactly len bytes; checks that they are all consumed
template<typename Op> void with_source(unsigned kind, const byte_t *bytes, std::size_t len, Op &&op) {
  byte_t *heap = new byte_t[len ? len : 1]; // exactly sized
  for (std::size_t i = 0; i < len; i++) heap[i] = bytes[i];
  const byte_t *h = heap;
  std::size_t n = 0;
  bool counted = true;
  switch (kind) {
  case 0: op(source{h, &n}); break;
  case 1: { own_src s{h, 0}; op(s); n = s.n; break; }
  case 2: { const const_src s{h, &n}; op(s); break; }
  case 3: { g_from = h; g_read = 0; op(fetch); n = g_read; break; }
  case 4: { g_from = h; g_read = 0; op(&fetch); n = g_read; break; }
  case 5: { std::function<byte_t()> f = source{h, &n}; op(f); break; }
  case 6: op([h, &n]() mutable { n++; return *h++; }); break;
  case 7: { op(h); counted = false; break; }
  case 8: { op(heap + 0); counted = false; break; }
  case 9: { std::list<byte_t> l(h, h + len); op(l.cbegin()); counted = false; break; }
  case 10: { std::forward_list<byte_t> l(h, h + len); auto it = l.begin(); op(it); counted = false; break; }
  case 11: { std::vector<byte_t> l(h, h + len); op(l.begin()); counted = false; break; }
  case 12: { std::deque<byte_t> l(h, h + len); const auto it = l.begin(); op(it); counted = false; break; }
  case 13: { in_it it{h, &n}; op(it); break; }
  case 14: { std::vector<byte_t> l(len); for (std::size_t i = 0; i < len; i++) l[len - 1 - i] = h[i]; op(l.rbegin()); counted = false; break; }
  default: { auto f = [&]() -> const byte_t & { return h[n++]; }; op(f); }
  }
  if (counted) vp_assert(n == len, "exactly the bytes of the operation are consumed, in place");
  delete[] heap;
}
// op(sink) for the given kind of sink; the bytes written go to out. Returns how many.
template<typename Op> std::size_t with_sink(unsigned kind, byte_t *out, std::size_t len, Op &&op) {
  byte_t *heap = new byte_t[len ? len : 1];
  for (std::size_t i = 0; i < len; i++) heap[i] = 0x5a;
  std::size_t n = 0;
  auto take = [&](const byte_t *p, std::size_t k) { for (std::size_t i = 0; i < k && i < 64; i++) out[i] = p[i]; return k; };
  switch (kind) {
  case 0: op(sink{out, &n, 64}); break;
  case 1: { own_sink s{out, 0}; op(s); n = s.n; break; }
  case 2: { const const_sink s{out, &n}; op(s); break; }
  case 3: { g_to = out; g_written = 0; op(emit); n = g_written; break; }
  case 4: { g_to = out; g_written = 0; op(&emit); n = g_written; break; }
  case 5: { std::function<void(byte_t)> f = sink{out, &n, 64}; op(f); break; }
  case 6: op([&n, out](byte_t b) mutable { out[n++] = b; }); break;
  case 7: op(ref_sink{out, &n}); break;
  case 8: { op(heap); n = take(heap, len); break; }
  case 9: { std::list<byte_t> l(heap, heap + len); op(l.begin()); for (byte_t b : l) out[n++] = b; break; }
  case 10: { std::forward_list<byte_t> l(heap, heap + len); auto it = l.begin(); op(it); for (byte_t b : l) out[n++] = b; break; }
  case 11: { std::vector<byte_t> l(heap, heap + len); op(l.begin()); for (byte_t b : l) out[n++] = b; break; }
  case 12: { std::deque<byte_t> l(heap, heap + len); const auto it = l.begin(); op(it); for (byte_t b : l) out[n++] = b; break; }
  case 13: { std::vector<byte_t> l; op(std::back_inserter(l)); for (byte_t b : l) out[n++] = b; break; }
  case 14: { std::list<byte_t> l; auto it = std::back_inserter(l); op(it); for (byte_t b : l) out[n++] = b; break; }
  case 15: { std::list<byte_t> l; op(std::front_inserter(l)); for (auto i = l.rbegin(); i != l.rend(); ++i) out[n++] = *i; break; }
  case 16: { std::vector<byte_t> l(heap, heap + len); op(l.rbegin()); for (auto i = l.rbegin(); i != l.rend(); ++i) out[n++] = *i; break; }
  default: { out_it it{out, &n}; op(it); }
  }
  delete[] heap;
  return n;
}
// an argument list for each key
template<typename R> struct args {
  u8 a; i16 b; bool c; i16 d[2]; tiny e;
  void any() { using F = typename R::format; a = vp_any<u8>(); b = any_representable<i16>(F::s); c = vp_any<bool>(); for (auto &x : d) x = any_representable<i16>(F::s); wire<tiny>::template any<F>(e); }
  template<typename Op> std::size_t with(std::size_t k, byte_t *w, Op &&op) {
    using F = typename R::format;
    R::put_index(w, k);
    switch (k) {
    case 0: pack_all<F>(w + 1, a, b); op(R::template key<0>(), a, b); return 4;
    case 1: pack_all<F>(w + 1, c); op(R::template key<1>(), c); return 2;
    case 2: op(R::template key<2>()); return 1;
    case 3: pack_all<F>(w + 1, d); op(R::template key<3>(), d); return 5;
    default: wire<tiny>::template pack<F>(w + 1, e); op(R::template key<4>(), e); return 4;
    }
  }
};
template<typename R> void messages() {
  args<R> v; v.any();
  byte_t w[8], out[64];
  std::size_t len = 0, n = 0;
  unsigned kind = vp_choose(SINKS), form = vp_choose(6), k = vp_choose(R::n);
  const std::size_t lens[] = {4, 2, 1, 5, 4};
  len = v.with(k, w, [&](auto key, const auto &...xs) {
    n = with_sink(kind, out, lens[k], [&](auto &&dst) {
      using D = decltype(dst);
      auto m = key(xs...);
      const auto &cm = m;
      switch (form) {
      case 0: key(xs...).write_to(static_cast<D>(dst)); break;
      case 1: key(xs...) >> static_cast<D>(dst); break;
      case 2: m.write_to(static_cast<D>(dst)); break;
      case 3: m >> static_cast<D>(dst); break;
      case 4: cm.write_to(static_cast<D>(dst)); break;
      default: cm >> static_cast<D>(dst);
      }
    });
  });
  vp_assert(n == len && same(out, w, len), "every form of sending a packet writes the same bytes");
  for (std::size_t i = 0; i < len; i++) vp_log(out[i]);
  vp_cover("messages");
}
template<typename R> void responses() {
  using F = typename R::format;
  unsigned kind = vp_choose(SOURCES), form = vp_choose(4), which = vp_choose(4);
  byte_t in[8];
  vp_sym_bytes(in, 8);
  auto go = [&](auto key, auto *want) {
    using T = std::decay_t<decltype(*want)>;
    T expected, got;
    wire<T>::template unpack<F>(in, expected);
    const auto ckey = key;
    with_source(kind, in, wire<T>::size, [&](auto &&src) {
      using S = decltype(src);
      switch (form) {
      case 0: got = key.read_from(static_cast<S>(src)); break;
      case 1: got = key << static_cast<S>(src); break;
      case 2: got = ckey.read_from(static_cast<S>(src)); break;
      default: got = ckey << static_cast<S>(src);
      }
    });
    vp_assert(wire<T>::equal(got, expected), "every form of reading a response gives the same value");
    wire<T>::log(got);
  };
  switch (which) {
  case 0: go(R::template key<0>(), (u16 *)nullptr); break;
  case 1: go(R::template key<2>(), (vec *)nullptr); break;
  case 2: go(R::template key<3>(), (std::array<u8, 3> *)nullptr); break;
  default: go(R::template key<4>(), (i8 *)nullptr);
  }
  vp_cover("responses");
}
// action-like objects: (source, sink)
static u32 g_hooked;
template<typename R, typename A> void process(A &a, unsigned kind_in, unsigned kind_out, bool konst, const byte_t *in, std::size_t inlen, byte_t *out, std::size_t outlen) {
  const A &ca = a;
  std::size_t n = with_sink(kind_out, out, outlen, [&](auto &&dst) {
    using D = decltype(dst);
    with_source(kind_in, in, inlen, [&](auto &&src) {
      using S = decltype(src);
      if (konst) ca(static_cast<S>(src), static_cast<D>(dst));
      else a(static_cast<S>(src), static_cast<D>(dst));
    });
  });
  vp_assert(n == outlen, "every form of a call writes as many bytes");
}
template<typename R> void actions(bool weak, unsigned from, unsigned to) {
  using F = typename R::format;
  unsigned ki = vp_choose(SOURCES), ko = from + vp_choose(to - from), konst = vp_choose(2);
  packet<R> p;
  fill(p, 0);
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
  byte_t out[64];
  if (weak) {
    upd::no_storage_action a{typename R::template callback<0>::handle{}, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
    process<R>(a, ki, ko, konst, p.bytes + R::isize, R::in(0), out, R::out(0));
  } else {
    upd::action a{&R::template callback<0>::fn, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
    process<R>(a, ki, ko, konst, p.bytes + R::isize, R::in(0), out, R::out(0));
  }
  vp_assert(same(out, s.out, R::out(0)) && j == s.log, "every form of a call makes the same call and writes the same bytes");
  vp_cover("actions");
}
template<typename R> void hooks() {
  using F = typename R::format;
  unsigned ki = vp_choose(SOURCES), konst = vp_choose(2);
  byte_t in[7];
  vp_sym_bytes(in, 7);
  vec want, got{};
  wire<vec>::template unpack<F>(in, want);
  upd::action a = R::template key<2>().with_hook([&](const vec &v) { got = v; });
  const upd::action &ca = a;
  // only functors may be given alone
  if (ki > 6 && ki < 15) process<R>(a, ki, 8, konst, in, 7, in, 0);
  else with_source(ki, in, 7, [&](auto &&src) {
    using S = decltype(src);
    if constexpr (std::is_invocable<S>::value) { if (konst) ca(static_cast<S>(src)); else a(static_cast<S>(src)); }
  });
  vp_assert(wire<vec>::equal(got, want), "every form of giving a response to a hook");
  vp_cover("hooks");
}
template<typename R, typename D> void dispatching(unsigned from, unsigned to) {
  using F = typename R::format;
  unsigned ki = vp_choose(SOURCES), ko = from + vp_choose(to - from);
  packet<R> p;
  unsigned w = vp_choose(3);
  fill(p, w == 0 ? 0 : w == 1 ? 2 : R::n);
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
  byte_t out[64];
  D d;
  std::size_t n = with_sink(ko, out, s.bottom, [&](auto &&dst) {
    using T = decltype(dst);
    with_source(ki, p.bytes, p.len, [&](auto &&src) {
      using S = decltype(src);
      auto idx = d(static_cast<S>(src), static_cast<T>(dst));
      vp_assert(idx == R::index(p.bytes), "every form of dispatching returns the index");
    });
  });
  vp_assert(n == s.bottom && same(out, s.out, n) && j == s.log, "every form of dispatching makes the same call and writes the same bytes");
  vp_cover("dispatching");
}
// get_action and get_index: functors only
template<typename R, typename D> void fetching() {
  packet<R> p;
  any_packet(p);
  D d;
  unsigned kind = vp_choose(8);
  if (kind == 7) kind = 15;
  bool idx = vp_choose(2);
  with_source(kind, p.bytes, R::isize, [&](auto &&src) {
    using S = decltype(src);
    if constexpr (std::is_invocable<S>::value) {
      if (idx) vp_assert(d.get_index(static_cast<S>(src)) == R::index(p.bytes), "every form of reading an index");
      else vp_assert(d.get_action(static_cast<S>(src)) == (p.known() ? &d[(typename R::index_t)p.k] : nullptr), "every form of finding an action");
    }
  });
  vp_cover("fetching");
}
template<typename R, typename D> void buffered(unsigned from, unsigned to, unsigned forms) {
  using F = typename R::format;
  unsigned ki = vp_choose(SOURCES), ko = from + vp_choose(to - from), form = vp_choose(forms);
  packet<R> p;
  unsigned w = forms > 2 ? vp_choose(2) : vp_choose(3);
  fill(p, w == 0 ? 0 : w == 1 ? R::n : 1);
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
  byte_t out[64];
  D d;
  std::size_t n = with_sink(ko, out, s.bottom, [&](auto &&dst) {
    using T = decltype(dst);
    with_source(ki, p.bytes, p.len, [&](auto &&src) {
      using S = decltype(src);
      upd::packet_status st{};
      switch (form) {
      case 0: st = d(static_cast<S>(src), static_cast<T>(dst)); break;
      case 1: st = d.read_from(static_cast<S>(src)); d.write_to(static_cast<T>(dst)); break;
      default: st = d << static_cast<S>(src); d >> static_cast<T>(dst);
      }
      vp_assert(is(st, p.known() ? RESOLVED : DROPPED), "every form of reading a packet gives the same status");
    });
  });
  vp_assert(n == s.bottom && same(out, s.out, n) && j == s.log, "every form of processing a packet makes the same call and writes the same bytes");
  vp_assert(!d.is_loaded(), "nothing remains");
  vp_cover("buffered");
}
template<typename R, typename D> void replies() {
  using F = typename R::format;
  using P = ring<F, void(), void(std::array<u8, 4>), u8(const byte_t (&)[2])>;
  unsigned ko = vp_choose(SINKS), k = vp_choose(2);
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  packet<R> p;
  fill(p, 0);
  D d;
  session<R> s;
  for (std::size_t i = 0; i < p.len; i++) { d.put(p.bytes[i]); s.put(p.bytes[i]); }
  byte_t out[64];
  std::size_t n = with_sink(ko, out, k ? 3 : 5, [&](auto &&dst) {
    using T = decltype(dst);
    bool done = k ? d.reply(static_cast<T>(dst), P::template key<2>()) : d.reply(static_cast<T>(dst), P::template key<1>());
    vp_assert(done, "replied");
  });
  vp_assert(n == (k ? 3u : 5u) && out[0] == (k ? 2 : 1) && same(out + 1, s.out, 2), "every form of replying writes the same bytes");
  vp_cover("replies");
}
using LT = fmt<LE, TC>; using BS = fmt<BE, SM>; using LO = fmt<LE, OC>; using BB = fmt<BE, OB>;
VP_CASE(messages_a) { messages<ring1<LT>>(); }
VP_CASE(messages_b) { messages<ring1<BS>>(); }
VP_CASE(responses_a) { responses<ring1<BB>>(); }
VP_CASE(responses_b) { responses<ring1<LO>>(); }
VP_CASE(action_a) { actions<ring1<LT>>(false, 0, SINKS / 2); }
VP_CASE(action_b) { actions<ring1<BS>>(false, SINKS / 2, SINKS); }
VP_CASE(weak_a) { actions<ring1<BB>>(true, 0, SINKS / 2); }
VP_CASE(weak_b) { actions<ring1<LO>>(true, SINKS / 2, SINKS); }
VP_CASE(hooks) { hooks<ring1<BS>>(); }
VP_CASE(plain_a) { using R = ring1<LT>; dispatching<R, plain<R, ANY>>(0, SINKS / 2); }
VP_CASE(plain_b) { using R = ring1<BB>; dispatching<R, plain<R, WEAK>>(SINKS / 2, SINKS); }
VP_CASE(fetch_a) { using R = ring1<LT>; fetching<R, plain<R, ANY>>(); }
VP_CASE(fetch_b) { using R = ring1<LT>; fetching<R, plain<R, WEAK>>(); }
VP_CASE(dbl_a) { using R = ring1<LO>; buffered<R, dbl<R, ANY>>(0, SINKS / 2, 2); }
VP_CASE(dbl_b) { using R = ring1<BS>; buffered<R, dbl<R, WEAK>>(SINKS / 2, SINKS, 2); }
VP_CASE(sgl_a) { using R = ring1<LT>; buffered<R, single<R, WEAK>>(0, SINKS / 2, 3); }
VP_CASE(sgl_b) { using R = ring1<BB>; buffered<R, single<R, ANY>>(SINKS / 2, SINKS, 3); }
VP_CASE(reply_d) { using R = ring1<BS>; replies<R, dbl<R, WEAK>>(); }
VP_CASE(reply_s) { using R = ring1<LO>; replies<R, single<R, ANY>>(); }
