// C13 C14 C15 C16 C17 C32: dispatchers.
#include "stream.hpp"
#include "user.hpp"

template<typename F> using small = ring<F, void(), i16(u8), u8(i16, bool), void(u16)>;
template<typename F> using mixed = ring<F, ll(bool), void(i8, u32), u8(), bool(const i32 &), std::array<i16, 2>(std::array<u8, 3>, i8)>;
template<typename F> using exts = ring<F, vec(tiny), tiny(vec, u8), void(cached), std::array<tiny, 2>(const u16 (&)[2])>;
template<typename F> using refs = ring<F, const i16 &(u8), void(i8), std::array<i16, 2> &(i8), const u8(i16), const vec &()>;
template<typename F> using lone = ring<F, u16()>;
template<typename F> using lonev = ring<F, void()>;
template<typename F> using two = ring<F, void(u8, u8), u16(i16)>;

// n callbacks, the last ones with the given signatures
template<std::size_t> using novoid = void();
template<typename S, typename F, typename... X> struct wide_impl;
template<std::size_t... Is, typename F, typename... X> struct wide_impl<seq<Is...>, F, X...> { using type = ring<F, novoid<Is>..., X...>; };
template<typename F, std::size_t N, typename... X> using wide = typename wide_impl<typename mkseq<N - sizeof...(X)>::type, F, X...>::type;

// ---------------------------------------------------------------- C13
// a fresh symbolic value for each parameter, sent with the key; the local call is the reference
template<typename R, std::size_t I, typename Sig = typename R::template sig<I>> struct remote;
template<typename R, std::size_t I, typename Ret, typename... As>
struct remote<R, I, Ret(As...)> {
  using F = typename R::format;
  using C = cb<I, Ret(As...)>;
  using K = decltype(R::template key<I>());
  using vals = values<bare<As>...>;
  static constexpr std::size_t L = R::isize + C::in, O = C::out;
  template<std::size_t... Is> static void send(const K &k, vals &v, sink s, seq<Is...>) { k(pick<Is>::get(v)...).write_to(s); }
  template<std::size_t... Is> static void local(vals &v, byte_t *, std::true_type, seq<Is...>) { C::fn(pick<Is>::get(v)...); }
  template<std::size_t... Is> static void local(vals &v, byte_t *out, std::false_type, seq<Is...>) { wire<bare<Ret>>::template pack<F>(out, C::fn(pick<Is>::get(v)...)); }
  static void back(const K &k, const byte_t *out, std::true_type) { std::size_t n = 0; k.read_from(source{out, &n}); vp_assert(n == 0, "no response for void"); }
  static void back(const K &k, const byte_t *out, std::false_type) {
    std::size_t n = 0;
    typename K::return_t r = k.read_from(source{out, &n});
    vp_assert(n == O && wire<bare<Ret>>::equal(r, result<bare<Ret>>::get(0)), "the response read with the key is the value the callback returned");
    wire<bare<Ret>>::log(r);
  }
  template<typename D> static void plain_call(D &d, const byte_t *req, const byte_t *resp, const journal &w) {
    const K k = R::template key<I>();
    for (int how = 0; how < 2; how++) {
      journal j;
      byte_t *out = new byte_t[O + 1];
      std::size_t n = 0, m = 0;
      rpc::start<F>(j);
      if (how == 0) {
        typename R::index_t i = d(source{req, &n}, sink{out, &m, O});
        vp_assert(i == I, "a dispatcher returns the index of the callback it called");
      } else {
        source s{req, &n};
        auto *a = d.get_action(s);
        vp_assert(a == &d[I], "the action of an index");
        vp_assert(n == R::isize, "getting an action consumes the index only");
        (*a)(s, sink{out, &m, O});
      }
      vp_assert(n == L, "a dispatcher consumes exactly the packet");
      vp_assert(j == w, "exactly the addressed callback is called, once, with the arguments given to the key");
      vp_assert(m == O && same(out, resp, O), "the response is the serialized return value");
      back(k, out, std::is_void<Ret>{});
      delete[] out;
    }
  }
  template<typename D> static void buffered_call(D &d, const byte_t *req, const byte_t *resp, const journal &w) {
    const K k = R::template key<I>();
    journal j;
    byte_t *out = new byte_t[O + 1];
    std::size_t n = 0, m = 0;
    rpc::start<F>(j);
    auto s = d(source{req, &n}, sink{out, &m, O});
    vp_assert(is(s, RESOLVED) && n == L, "a buffered dispatcher consumes exactly the packet");
    vp_assert(j == w, "exactly the addressed callback is called, once, with the arguments given to the key");
    vp_assert(m == O && same(out, resp, O), "the response is the serialized return value");
    vp_assert(!d.is_loaded(), "nothing is left");
    back(k, out, std::is_void<Ret>{});
    delete[] out;
  }
  static void go() {
    vals v; v.template any<F>();
    new_pool<F>();
    byte_t *req = new byte_t[L], resp[O + 1];
    const K k = R::template key<I>();
    std::size_t n = 0;
    send(k, v, sink{req, &n, L}, typename mkseq<sizeof...(As)>::type{});
    vp_assert(n == L, "the announced payload length");
    journal w;
    rpc::start<F>(w);
    local(v, resp, std::is_void<Ret>{}, typename mkseq<sizeof...(As)>::type{});
    plain<R, ANY> pa; plain<R, WEAK> pw; single<R, ANY> sa; single<R, WEAK> sw; dbl<R, ANY> da; dbl<R, WEAK> dw;
    plain_call(pa, req, resp, w);
    plain_call(pw, req, resp, w);
    buffered_call(sa, req, resp, w);
    buffered_call(sw, req, resp, w);
    buffered_call(da, req, resp, w);
    buffered_call(dw, req, resp, w);
    delete[] req;
    vp_cover("remote");
  }
};
template<typename R, std::size_t... Is> void remotes(seq<Is...>) { DUMMY(remote<R, Is>::go()); }
template<typename R> void all_remotes() { remotes<R>(typename mkseq<R::n>::type{}); }
#ifdef C13
#define BOTH(NAME, RING, FA, FB) VP_CASE(NAME##_1) { all_remotes<RING<FA>>(); } VP_CASE(NAME##_2) { all_remotes<RING<FB>>(); }
typedef fmt<LE, SM> LS; typedef fmt<LE, OC> LO; typedef fmt<LE, TC> LT; typedef fmt<LE, OB> LB;
typedef fmt<BE, SM> BS; typedef fmt<BE, OC> BO; typedef fmt<BE, TC> BT; typedef fmt<BE, OB> BB;
BOTH(small, small, LT, BS) BOTH(small_, small, LO, BB) BOTH(smallx, small, LS, BT) BOTH(smally, small, LB, BO)
BOTH(mixed, mixed, BT, LS) BOTH(mixed_, mixed, BO, LB)
BOTH(exts, exts, LT, BB)
BOTH(refs, refs, BT, LO)
VP_CASE(lone) { all_remotes<lone<BT>>(); all_remotes<lonev<LO>>(); }
template<typename R> void wide_remote() { remote<R, 0>::go(); remote<R, 1>::go(); remote<R, 255>::go(); remote<R, 256>::go(); remote<R, R::n - 1>::go(); remote<R, R::n - 2>::go(); }
VP_CASE(wide_be) { wide_remote<wide<BT, 260, i16(u8, i16), void(u32)>>(); }
VP_CASE(wide_le) { wide_remote<wide<LB, 260, i16(u8, i16), void(u32)>>(); }
VP_CASE(edge255) { using R = wide<BS, 255, u8(u8)>; remote<R, 254>::go(); remote<R, 253>::go(); remote<R, 0>::go(); }
VP_CASE(edge256) { using R = wide<LO, 256, u8(u8)>; remote<R, 255>::go(); remote<R, 254>::go(); remote<R, 0>::go(); }
#endif

// ---------------------------------------------------------------- C14
template<typename R, typename D> void unknown_plain(std::size_t follow) {
  D d;
  journal j, none;
  using F = typename R::format;
  new_pool<F>();
  rpc::start<F>(j);
  packet<R> p, q;
  fill(p, R::n);
  byte_t *exact = new byte_t[R::isize];   // nothing may be read past the index
  std::memcpy(exact, p.bytes, R::isize);
  byte_t out[64];
  std::size_t n = 0, m = 0;
  auto idx = d(source{exact, &n}, sink{out, &m, 64});
  vp_assert(n == R::isize, "only the index of an unknown packet is consumed");
  vp_assert(m == 0 && j == none, "an unknown index calls nothing and writes nothing");
  vp_assert(idx == R::index(p.bytes), "an unknown index is returned");
  n = 0;
  vp_assert(d.get_action(source{exact, &n}) == nullptr && n == R::isize, "an unknown index yields no action");
  vp_assert(j == none, "getting an action calls nothing");
  vp_log(idx);
  delete[] exact;
  fill(q, follow);
  session<R> s;
  for (std::size_t i = 0; i < q.len; i++) s.put(q.bytes[i]);
  n = m = 0;
  vp_assert(d(source{q.bytes, &n}, sink{out, &m, 64}) == follow && n == q.len && m == s.bottom && same(out, s.out, m) && j == s.log, "a packet after an unknown one is processed");
  vp_cover("unknown plain");
}
template<typename R, typename D> void unknown_buffered(std::size_t before, std::size_t follow, bool separate) {
  D d;
  session<R> s;
  journal j;
  using F = typename R::format;
  new_pool<F>();
  rpc::start<F>(j);
  packet<R> a, p, q;
  fill(a, before);
  put_all<R>(s, d, a);
  // some of the response is drained, or all of it where the request shares the buffer
  std::size_t out = s.bottom, drained = separate ? vp_choose(out + 1) : out;
  for (std::size_t i = 0; i < drained; i++) get1(s, d);
  fill(p, R::n);
  unsigned how = vp_choose(3);
  if (how == 0) put_all<R>(s, d, p);
  else if (how == 1) read_rest<R>(s, d, p, 0, 0);
  else {
    byte_t none[1];
    std::size_t n = 0, m = 0;
    for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
    vp_assert(is(d(source{p.bytes, &n}, sink{none, &m, 0}), DROPPED) && n == R::isize && m == 0, "an unknown packet is dropped and nothing is written");
  }
  vp_assert(d.is_loaded() == s.loaded() && j == s.log, "an unknown packet calls nothing and keeps the pending output");
  if (how != 2 && separate) drain(s, d);
  fill(p, R::n);
  put_all<R>(s, d, p);
  fill(q, follow);
  if (how == 2) { if (separate) drain(s, d); }
  feed<R>(s, d, q);
  drain(s, d);
  vp_assert(j == s.log, "the next byte starts a new packet");
  vp_cover("unknown buffered");
}
#ifdef C14
template<typename R, std::size_t A, std::size_t B> void unknown() {
  unknown_plain<R, plain<R, ANY>>(A);
  unknown_plain<R, plain<R, WEAK>>(B);
  unknown_buffered<R, dbl<R, WEAK>>(A, B, true);
  unknown_buffered<R, single<R, ANY>>(A, B, false);
  unknown_buffered<R, custom<plain<R, WEAK>, 64, 64>>(B, A, true);
}
VP_CASE(small1) { unknown<small<fmt<LE, TC>>, 1, 2>(); }
VP_CASE(small2) { unknown<small<fmt<BE, SM>>, 2, 0>(); }
VP_CASE(small3) { unknown<small<fmt<BE, OB>>, 3, 1>(); }
VP_CASE(lone) { unknown<lone<fmt<BE, TC>>, 0, 0>(); }
VP_CASE(lonev) { unknown<lonev<fmt<LE, OB>>, 0, 0>(); }
VP_CASE(two) { unknown<two<fmt<LE, OC>>, 1, 0>(); }
VP_CASE(wide_be) { unknown<wide<fmt<BE, TC>, 260, i16(u8, i16), void(u32)>, 258, 259>(); }
VP_CASE(wide_le) { unknown<wide<fmt<LE, SM>, 300, i16(u8, i16), void(u32)>, 298, 256>(); }
VP_CASE(edge254) { unknown<wide<fmt<LE, TC>, 254, i16(u8)>, 253, 253>(); }
VP_CASE(edge255) { unknown<wide<fmt<LE, TC>, 255, i16(u8)>, 254, 254>(); }
VP_CASE(edge256) { unknown<wide<fmt<BE, OB>, 256, i16(u8)>, 255, 254>(); }
VP_CASE(edge257) { unknown<wide<fmt<LE, OC>, 257, i16(u8)>, 256, 255>(); }
#endif

// ---------------------------------------------------------------- C15
// every stream of up to P packets, of any kind and contents, byte by byte; then the start of another
template<typename R, typename D> void framing(unsigned packets, bool separate) {
  using F = typename R::format;
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  for (unsigned i = 0; i < packets; i++) {
    packet<R> p;
    any_packet(p);
    put_all<R>(s, d, p);
    vp_assert(d.is_loaded() == s.loaded(), "a response is pending exactly after a packet with a result");
    if (!separate || vp_choose(2)) drain(s, d);
  }
  vp_assert(j == s.log, "each packet is a call of the addressed callback with its values");
  drain(s, d);
  vp_cover("framing");
}
template<typename R, typename D> void chunks(unsigned packets) {
  using F = typename R::format;
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  for (unsigned i = 0; i < packets; i++) {
    packet<R> p;
    any_packet(p);
    feed<R>(s, d, p);
    vp_assert(j == s.log, "each packet is a call of the addressed callback with its values");
    drain(s, d);
  }
  vp_cover("chunks");
}
// any K bytes at all
template<typename R, typename D> void bytes(unsigned k, bool separate) {
  using F = typename R::format;
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  for (unsigned i = 0; i < k; i++) {
    put<R>(s, d, vp_any<u8>());
    vp_assert(d.is_loaded() == s.loaded(), "loaded");
    if (!separate)
      while (s.loaded()) get1(s, d);
  }
  vp_assert(j == s.log, "the calls made by any byte stream");
  drain(s, d);
  vp_cover("bytes");
}
#ifdef C15
#ifndef PACKETS
#define PACKETS 3
#define CHUNKED 2
#define BYTES 5
#endif
VP_CASE(dbl_small) { using R = small<fmt<LE, TC>>; framing<R, dbl<R, WEAK>>(PACKETS, true); }
VP_CASE(dbl_small2) { using R = small<fmt<BE, SM>>; framing<R, dbl<R, ANY>>(PACKETS, true); }
VP_CASE(sgl_small) { using R = small<fmt<BE, OB>>; framing<R, single<R, ANY>>(PACKETS, false); }
VP_CASE(sgl_small2) { using R = small<fmt<LE, OC>>; framing<R, single<R, WEAK>>(PACKETS, false); }
VP_CASE(dbl_mixed) { using R = mixed<fmt<BE, TC>>; framing<R, dbl<R, WEAK>>(PACKETS - 1, true); }
VP_CASE(sgl_mixed) { using R = mixed<fmt<LE, SM>>; framing<R, single<R, WEAK>>(PACKETS - 1, false); }
VP_CASE(dbl_exts) { using R = exts<fmt<LE, OB>>; framing<R, dbl<R, ANY>>(PACKETS - 1, true); }
VP_CASE(sgl_exts) { using R = exts<fmt<BE, TC>>; framing<R, single<R, ANY>>(PACKETS - 1, false); }
VP_CASE(derived_small) { using R = small<fmt<BE, TC>>; framing<R, derived<plain<R, ANY>, 4, 2>>(PACKETS - 1, true); }
VP_CASE(custom_small) { using R = small<fmt<LE, SM>>; framing<R, custom<plain<R, WEAK>, 4, 2>>(PACKETS - 1, true); }
VP_CASE(ch_dbl) { using R = small<fmt<LE, TC>>; chunks<R, dbl<R, WEAK>>(CHUNKED); }
VP_CASE(ch_sgl) { using R = small<fmt<BE, SM>>; chunks<R, single<R, ANY>>(CHUNKED); }
VP_CASE(ch_mixed) { using R = mixed<fmt<BE, OB>>; chunks<R, dbl<R, ANY>>(CHUNKED - 1); chunks<R, single<R, WEAK>>(CHUNKED - 1); }
VP_CASE(ch_exts) { using R = exts<fmt<BE, OC>>; chunks<R, single<R, WEAK>>(CHUNKED - 1); }
VP_CASE(raw_dbl) { using R = two<fmt<LE, TC>>; bytes<R, dbl<R, WEAK>>(BYTES, true); }
VP_CASE(raw_sgl) { using R = two<fmt<BE, OB>>; bytes<R, single<R, ANY>>(BYTES, false); }
VP_CASE(raw_small) { using R = small<fmt<BE, TC>>; bytes<R, dbl<R, WEAK>>(BYTES - 1, true); }
template<typename R, typename D> void wide_framing(bool separate) {
  using F = typename R::format;
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  const std::size_t pickable[] = {0, 255, 256, R::n - 2, R::n - 1, R::n};
  for (unsigned i = 0; i < 2; i++) {
    packet<R> p;
    fill(p, pickable[vp_choose(6)]);
    feed<R>(s, d, p);
    if (!separate) drain(s, d);
  }
  vp_assert(j == s.log, "each packet is a call of the addressed callback with its values");
  drain(s, d);
  vp_cover("wide framing");
}
VP_CASE(wide_be) { using R = wide<fmt<BE, TC>, 260, i16(u8), void(u16)>; wide_framing<R, dbl<R, WEAK>>(true); }
VP_CASE(wide_le) { using R = wide<fmt<LE, SM>, 300, i16(u8), void(u16)>; wide_framing<R, single<R, WEAK>>(false); }
#endif

// ---------------------------------------------------------------- C16
template<typename R, typename D> void draining(bool separate) {
  using F = typename R::format;
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  vp_assert(!d.is_loaded() && d.get() == 0, "nothing is pending at first");
  packet<R> p, q;
  known_packet(p);
  put_all<R>(s, d, p);
  std::size_t by_byte = vp_choose(s.bottom + 1);
  for (std::size_t i = 0; i < by_byte; i++) get1(s, d);
  // part of the next request, if it has its own buffer
  known_packet(q);
  std::size_t part = separate ? vp_choose(q.len) : 0;
  for (std::size_t i = 0; i < part; i++) put<R>(s, d, q.bytes[i]);
  if (vp_choose(2)) drain(s, d);
  else drain_all(s, d, vp_choose(6));
  for (std::size_t i = part; i < q.len; i++) put<R>(s, d, q.bytes[i]);
  vp_assert(d.is_loaded() == s.loaded(), "a void callback leaves nothing pending");
  drain(s, d);
  vp_assert(j == s.log, "draining changes no call");
  vp_cover("draining");
}
// a response that nobody reads is replaced by the next one
template<typename R, typename D> void unread() {
  using F = typename R::format;
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  packet<R> p, q;
  known_packet(p);
  put_all<R>(s, d, p);
  std::size_t by_byte = vp_choose(s.bottom + 1);
  for (std::size_t i = 0; i < by_byte; i++) get1(s, d);
  known_packet(q);
  feed<R>(s, d, q);
  drain_all(s, d, 0);
  vp_assert(j == s.log, "calls");
  vp_cover("unread");
}
#ifdef C16
VP_CASE(dbl_small) { using R = small<fmt<LE, TC>>; draining<R, dbl<R, WEAK>>(true); }
VP_CASE(dbl_mixed) { using R = ring<fmt<BE, SM>, ll(bool), u8(), std::array<i16, 2>(i8), void(u16)>; draining<R, dbl<R, ANY>>(true); }
VP_CASE(sgl_small) { using R = small<fmt<BE, OB>>; draining<R, single<R, WEAK>>(false); }
VP_CASE(sgl_mixed) { using R = mixed<fmt<LE, OC>>; draining<R, single<R, ANY>>(false); }
VP_CASE(custom) { using R = ring<fmt<LE, TC>, void(), i16(u8), vec(u8)>; draining<R, custom<plain<R, WEAK>, 2, 7>>(true); }
VP_CASE(unread_d) { using R = small<fmt<LE, OC>>; unread<R, dbl<R, WEAK>>(); }
VP_CASE(unread_d2) { using R = mixed<fmt<BE, TC>>; unread<R, dbl<R, ANY>>(); }
VP_CASE(unread_s) { using R = small<fmt<LE, SM>>; unread<R, single<R, ANY>>(); }
#endif

// ---------------------------------------------------------------- C17
// A user-defined dispatcher whose only buffer has the size a single-buffered one announces
template<typename Dispatcher, std::size_t SIZE>
class shared : public upd::buffered_dispatcher<shared<Dispatcher, SIZE>, Dispatcher> {
  byte_t *m_b = new byte_t[SIZE];
public:
  shared() {}
  shared(const shared &) = delete;
  ~shared() { delete[] m_b; }
  byte_t *ibuf_begin() { return m_b; }
  byte_t *obuf_begin() { return m_b; }
};
template<typename R, typename D> void exercise(D &d, unsigned packets, bool separate) {
  using F = typename R::format;
  static session<R, 512, 512> s;
  s = session<R, 512, 512>{};
  static journal j;
  j = journal{};
  rpc::start<F>(j);
  for (unsigned i = 0; i < packets; i++) {
    static packet<R, 512> p;
    p = packet<R, 512>{};
    any_packet(p);
    for (std::size_t b = 0; b < p.len; b++) {
      status want = s.put(p.bytes[b]);
      vp_assert(is(d.put(p.bytes[b]), want), "the status of each byte");
    }
    vp_assert(d.is_loaded() == s.loaded(), "loaded");
    if (!separate || i + 1 == packets) {
      if (s.bottom > 20) drain_all(s, d, 3); else drain(s, d);
    }
  }
  vp_assert(j == s.log, "calls");
}
template<typename R> void buffers(unsigned packets) {
  using F = typename R::format;
  new_pool<F>();
  typedef single<R, WEAK> SW; typedef single<R, ANY> SA; typedef dbl<R, WEAK> DW; typedef dbl<R, ANY> DA;
  const std::size_t mi = R::isize + R::max_in(), mo = R::max_out();
  vp_assert(SW::buffer_size >= mi && SW::buffer_size >= mo && SA::buffer_size == SW::buffer_size, "the announced buffer size is enough for every request and every response");
  vp_assert(DW::input_buffer_size >= mi && DA::input_buffer_size == DW::input_buffer_size, "the announced input buffer size is enough for every request");
  vp_assert(DW::output_buffer_size >= mo && DA::output_buffer_size == DW::output_buffer_size, "the announced output buffer size is enough for every response");
  vp_assert(sizeof(SW) >= sizeof(upd::buffered_dispatcher<SW, plain<R, WEAK>>) + SW::buffer_size, "a single-buffered dispatcher holds its buffer");
  vp_assert(sizeof(DW) >= sizeof(upd::buffered_dispatcher<DW, plain<R, WEAK>>) + DW::input_buffer_size + DW::output_buffer_size, "a double-buffered dispatcher holds its buffers");
  switch (vp_choose(6)) {
  case 5: { auto *d = new derived<plain<R, WEAK>, DW::input_buffer_size, DW::output_buffer_size>; exercise<R>(*d, packets < 2 ? packets : 1, true); delete d; break; }
  case 0: { SW *d = new SW; exercise<R>(*d, packets, false); delete d; break; }
  case 1: { DW *d = new DW; exercise<R>(*d, packets, true); delete d; break; }
  case 2: { shared<plain<R, WEAK>, SW::buffer_size> d; exercise<R>(d, packets, false); break; }
  case 3: { custom<plain<R, ANY>, DW::input_buffer_size, DW::output_buffer_size> d; exercise<R>(d, packets, true); break; }
  default: { DA *d = new DA; exercise<R>(*d, packets, true); delete d; }
  }
  vp_cover("buffers");
}
#ifdef C17
#ifndef PACKETS
#define PACKETS 2
#endif
using b300 = std::array<u8, 300>;
using b256 = std::array<u8, 256>;
VP_CASE(small) { buffers<small<fmt<LE, TC>>>(PACKETS); }
VP_CASE(wide_in) { buffers<wide<fmt<BE, TC>, 256, i16(u32, u8), void(u16)>>(PACKETS); }
VP_CASE(wide_out) { buffers<wide<fmt<LE, OB>, 258, ll(u8), std::array<u8, 9>()>>(PACKETS); }
VP_CASE(bigret) { buffers<ring<fmt<BE, TC>, ll(), void(u8), std::array<u8, 13>(u16)>>(PACKETS); }
VP_CASE(bigret2) { buffers<ring<fmt<LE, OB>, std::array<ll, 2>(bool), u8(), i16(u8)>>(PACKETS); }
VP_CASE(bigarg) { buffers<ring<fmt<BE, SM>, void(std::array<u8, 15>), u8(i16), i8(u8, ll)>>(PACKETS); }
VP_CASE(noargs) { buffers<ring<fmt<LE, TC>, void(), void()>>(PACKETS); }
VP_CASE(noargs2) { buffers<ring<fmt<BE, TC>, void(), u32()>>(PACKETS); }
VP_CASE(noret) { buffers<ring<fmt<LE, SM>, void(u32), void(u8, u16, u8)>>(PACKETS); }
VP_CASE(exts1) { buffers<exts<fmt<LE, TC>>>(PACKETS - 1); }
VP_CASE(exts2) { buffers<ring<fmt<BE, OB>, vec(), void(tiny), outer(u8)>>(PACKETS); }
VP_CASE(exts3) { buffers<ring<fmt<LE, OC>, u8(vec, outer), void(std::array<tiny, 3>)>>(PACKETS); }
VP_CASE(refs1) { buffers<refs<fmt<BE, OC>>>(PACKETS - 1); }
VP_CASE(exact8) { buffers<ring<fmt<LE, TC>, std::array<u8, 9>(std::array<u8, 6>), u8(u8)>>(PACKETS); }  // no padding after the buffers
VP_CASE(exact8s) { buffers<ring<fmt<LE, TC>, std::array<u8, 8>(std::array<u8, 7>), u8(u8)>>(PACKETS); }
VP_CASE(exact16s) { buffers<ring<fmt<LE, TC>, std::array<u8, 16>(std::array<u8, 3>), u8(u8)>>(PACKETS); }
VP_CASE(bigger1) { buffers<ring<fmt<LE, TC>, u8(b300), b256(u8, i16)>>(1); }
VP_CASE(bigger2) { buffers<ring<fmt<BE, OB>, b300(), void(b256), i16(i16)>>(1); }
VP_CASE(bigger3) { buffers<ring<fmt<BE, TC>, void(std::array<u8, 254>), u8(std::array<u8, 127>, std::array<i8, 128>)>>(1); }
#endif

// ---------------------------------------------------------------- C32
struct answers { byte_t out[64]; std::size_t n = 0; journal j; };
template<typename R, typename D> void answer_plain(const packet<R> *p, unsigned packets, answers &a) {
  D d;
  rpc::start<typename R::format>(a.j);
  for (unsigned i = 0; i < packets; i++) {
    std::size_t n = 0;
    auto idx = d(source{p[i].bytes, &n}, sink{a.out, &a.n, 64});
    vp_assert(n == p[i].len && idx == R::index(p[i].bytes), "a plain dispatcher consumes the packet");
  }
}
template<typename R, typename D> void answer_buffered(const packet<R> *p, unsigned packets, answers &a) {
  D d;
  rpc::start<typename R::format>(a.j);
  for (unsigned i = 0; i < packets; i++) {
    std::size_t n = 0;
    auto s = d(source{p[i].bytes, &n}, sink{a.out, &a.n, 64});
    vp_assert(n == p[i].len && is(s, p[i].known() ? RESOLVED : DROPPED), "a buffered dispatcher consumes the packet");
  }
}
template<typename R, typename D> void answer_bytes(const packet<R> *p, unsigned packets, answers &a) {
  D d;
  rpc::start<typename R::format>(a.j);
  for (unsigned i = 0; i < packets; i++) {
    for (std::size_t b = 0; b < p[i].len; b++) {
      d.put(p[i].bytes[b]);
      while (d.is_loaded()) a.out[a.n++] = d.get();
    }
  }
}
inline void agree(const answers &a, const answers &b) {
  vp_assert(a.j == b.j, "all dispatchers make the same calls");
  vp_assert(a.n == b.n && same(a.out, b.out, a.n), "all dispatchers produce the same response bytes");
}
template<typename R> void kinds(unsigned packets) {
  packet<R> p[3];
  new_pool<typename R::format>();
  for (unsigned i = 0; i < packets; i++) any_packet(p[i]);
  answers ref;
  answer_plain<R, plain<R, ANY>>(p, packets, ref);
  // and the plain one is right
  session<R> s;
  byte_t out[64];
  std::size_t n = 0;
  for (unsigned i = 0; i < packets; i++)
    for (std::size_t b = 0; b < p[i].len; b++) {
      s.put(p[i].bytes[b]);
      while (s.loaded()) out[n++] = s.get();
    }
  vp_assert(ref.j == s.log && n == ref.n && same(out, ref.out, n), "a plain dispatcher answers the stream");
  { answers a; answer_plain<R, plain<R, WEAK>>(p, packets, a); agree(ref, a); }
  { answers a; answer_buffered<R, single<R, ANY>>(p, packets, a); agree(ref, a); }
  { answers a; answer_buffered<R, single<R, WEAK>>(p, packets, a); agree(ref, a); }
  { answers a; answer_buffered<R, dbl<R, ANY>>(p, packets, a); agree(ref, a); }
  { answers a; answer_buffered<R, dbl<R, WEAK>>(p, packets, a); agree(ref, a); }
  { answers a; answer_bytes<R, single<R, WEAK>>(p, packets, a); agree(ref, a); }
  { answers a; answer_bytes<R, dbl<R, ANY>>(p, packets, a); agree(ref, a); }
  { answers a; answer_buffered<R, custom<plain<R, WEAK>, 40, 40>>(p, packets, a); agree(ref, a); }
  { answers a; answer_buffered<R, derived<plain<R, WEAK>, 40, 40>>(p, packets, a); agree(ref, a); }
  { answers a; answer_bytes<R, custom<plain<R, ANY>, 40, 40>>(p, packets, a); agree(ref, a); }
  vp_cover("kinds");
}
#ifdef C32
#ifndef PACKETS
#define PACKETS 2
#endif
VP_CASE(small1) { kinds<small<fmt<LE, TC>>>(PACKETS); }
VP_CASE(small2) { kinds<small<fmt<BE, SM>>>(PACKETS); }
VP_CASE(mixed1) { kinds<mixed<fmt<BE, OB>>>(PACKETS - 1); }
VP_CASE(mixed2) { kinds<mixed<fmt<LE, OC>>>(PACKETS - 1); }
VP_CASE(exts1) { kinds<exts<fmt<LE, SM>>>(PACKETS - 1); }
VP_CASE(exts2) { kinds<exts<fmt<BE, TC>>>(PACKETS - 1); }
VP_CASE(refs1) { kinds<refs<fmt<LE, TC>>>(PACKETS - 1); }
VP_CASE(two1) { kinds<two<fmt<LE, OB>>>(3); }
VP_CASE(lone1) { kinds<lone<fmt<BE, OC>>>(3); kinds<lonev<fmt<LE, TC>>>(2); }
template<typename R> void wide_kinds() {
  const std::size_t pickable[] = {0, 255, 256, R::n - 2, R::n - 1, R::n};
  packet<R> p[1];
  new_pool<typename R::format>();
  fill(p[0], pickable[vp_choose(6)]);
  answers ref;
  answer_plain<R, plain<R, ANY>>(p, 1, ref);
  vp_assert(ref.j.calls == (p[0].known() ? 1u : 0u) && (!p[0].known() || ref.j.data[0] + 256u * ref.j.data[1] == p[0].k), "a plain dispatcher answers");
  { answers a; answer_plain<R, plain<R, WEAK>>(p, 1, a); agree(ref, a); }
  { answers a; answer_buffered<R, single<R, WEAK>>(p, 1, a); agree(ref, a); }
  { answers a; answer_buffered<R, dbl<R, WEAK>>(p, 1, a); agree(ref, a); }
  vp_cover("wide kinds");
}
VP_CASE(wide1) { wide_kinds<wide<fmt<BE, TC>, 258, i16(u8), void(u16)>>(); }
#endif
