// C26: nothing the library emits, stores or passes on depends on uninitialised memory.
#define RPC_DEFINED
#define RPC_THROWS
#include "stream.hpp"
#include "user.hpp"
#include <memory>

template<typename T> void known(const T &v, const char *what) {
  byte_t b[wire<T>::size];
  wire<T>::template pack<canon>(b, v);
  vp_assert_defined(b, wire<T>::size, what);
}
// ---- tuples and views
template<typename F, typename... Ts> struct fields {
  static constexpr std::size_t N = sum_size<Ts...>::value;
  using tup = upd::tuple<F::e, F::s, Ts...>;
  using S = typename mkseq<sizeof...(Ts)>::type;
  template<std::size_t I> using T = typename nth<I, Ts...>::type;
  template<std::size_t I, typename V> static void get1(const V &t) { known(t.template get<I>(), "a field read is no uninitialised memory"); }
  template<typename V, std::size_t... Is> static void gets(const V &t, seq<Is...>) { DUMMY((get1<Is>(t), 0)); }
  template<std::size_t... Is> static tup build(values<Ts...> &v, seq<Is...>) { return tup{pick<Is>::get(v)...}; }
  template<std::size_t... Is> static tup *build_new(values<Ts...> &v, seq<Is...>) { return new tup{pick<Is>::get(v)...}; }
  template<typename U> struct param { using type = U; };
  template<typename U, std::size_t K> struct param<U[K]> { using type = const U (&)[K]; };
  static void taken(typename param<Ts>::type... x) { DUMMY((known<Ts>(x, "an invoked callback gets no uninitialised memory"), 0)); }
  static void check(const tup &t, const char *what) { vp_assert_defined(t.begin(), N, what); gets(t, S{}); }
  // one field of a sequence of undefined bytes
  template<std::size_t I> static int one(values<Ts...> &v) {
    constexpr std::size_t o = off<I, Ts...>::value, n = wire<T<I>>::size;
    byte_t *b = new byte_t[N];
    upd::tuple_view<byte_t *, F::e, F::s, Ts...> view{b};
    view.template set<I>(pick<I>::get(v));
    vp_assert_defined(b + o, n, "setting a field writes all of its bytes");
    get1<I>(view);
    vp_undef(b, N);
    vp_sym_bytes(b + o, n);
    get1<I>(view);
    std::list<byte_t> l(b + o, b + o + n);
    upd::tuple_view<std::list<byte_t>::const_iterator, F::e, F::s, T<I>> lv{l.cbegin()};
    get1<0>(lv);
    delete[] b;
    return 0;
  }
  template<std::size_t... Is> static void each(values<Ts...> &v, seq<Is...>) { DUMMY(one<Is>(v)); }
  static void go() {
    values<Ts...> v;
    v.template any<F>();
    tup a;
    check(a, "a default-constructed tuple is initialised");
    std::unique_ptr<tup> b{new tup};
    check(*b, "a default-constructed tuple is initialised");
    std::unique_ptr<tup> c{new tup{}};
    check(*c, "a default-constructed tuple is initialised");
    tup t = build(v, S{});
    check(t, "a tuple built from values is initialised");
    std::unique_ptr<tup> h{build_new(v, S{})};
    check(*h, "a tuple built from values is initialised");
    tup u{t};
    check(u, "a copied tuple is initialised");
    upd::tuple<F::e == LE ? BE : LE, F::s == TC ? OB : TC, Ts...> o;
    o = std::move(u);
    vp_assert_defined(o.begin(), N, "a tuple assigned to is initialised");
    byte_t *raw = new byte_t[N];
    upd::tuple_view<byte_t *, F::e, F::s, Ts...> view{raw};
    view = std::move(o);
    vp_assert_defined(raw, N, "a view assigned to is initialised");
    delete[] raw;
    each(v, S{});
    t.invoke(&taken);
    vp_cover("fields");
  }
};

typedef std::array<std::array<i16, 2>, 2> nested;
template<typename F> void ints() { fields<F, bool, i16, u32, ll, i8, u16>::go(); fields<F, char, wchar_t, unsigned long long, i32>::go(); }
template<typename F> void arrays() { fields<F, u8, i16[3], nested, std::array<u8, 5>, bool>::go(); fields<F, i32[2], u16>::go(); }
template<typename F> void users() { fields<F, vec, u8, tiny, std::array<tiny, 2>, i16>::go(); fields<F, cached, outer, withar>::go(); }
#define ALL(NAME)                                                                                                      \
  VP_CASE(NAME##_1) { NAME<fmt<LE, SM>>(); NAME<fmt<BE, TC>>(); } VP_CASE(NAME##_2) { NAME<fmt<LE, TC>>(); NAME<fmt<BE, OB>>(); } \
  VP_CASE(NAME##_3) { NAME<fmt<LE, OC>>(); NAME<fmt<BE, SM>>(); } VP_CASE(NAME##_4) { NAME<fmt<LE, OB>>(); NAME<fmt<BE, OC>>(); }
ALL(ints) ALL(arrays) ALL(users)
VP_CASE(large) { fields<fmt<BE, OB>, u8, std::array<u8, 260>, i16>::go(); fields<fmt<LE, TC>, u16[130], i32>::go(); }

// ---- requests, responses and actions
template<typename F> using small = ring<F, void(), i16(u8), u8(i16, bool), void(u16)>;
template<typename F> using mixed = ring<F, ll(bool), void(i8, u32), u8(), bool(const i32 &), std::array<i16, 2>(std::array<u8, 3>, i8)>;
template<typename F> using exts = ring<F, vec(tiny), tiny(vec, u8), void(cached), std::array<tiny, 2>(const u16 (&)[2])>;
template<typename R, std::size_t I, typename Sig = typename R::template sig<I>> struct call;
template<typename R, std::size_t I, typename Ret, typename... As> struct call<R, I, Ret(As...)> {
  using F = typename R::format;
  using C = cb<I, Ret(As...)>;
  using K = decltype(R::template key<I>());
  static constexpr std::size_t L = R::isize + C::in, O = C::out;
  template<std::size_t... Is> static void send(values<bare<As>...> &v, byte_t *p, unsigned how, seq<Is...>) {
    const K k = R::template key<I>();
    std::size_t n = 0;
    if (how == 0) k(pick<Is>::get(v)...).write_to(sink{p, &n, L});
    else if (how == 1) k(pick<Is>::get(v)...).write_to(p);
    else k(pick<Is>::get(v)...) >> sink{p, &n, L};
  }
  static void hooked(Ret *) {}
  static void response(std::true_type) {}
  static void response(std::false_type) {
    const K k = R::template key<I>();
    byte_t *b = new byte_t[O];
    vp_sym_bytes(b, O);
    std::size_t n = 0, m = 0;
    typename K::return_t r = k.read_from(source{b, &n});
    known(r, "a response read with a key is no uninitialised memory");
    auto a = k.with_hook([](const Ret &x) { known(x, "a hook gets no uninitialised memory"); });
    byte_t none[1];
    a(source{b, &n}, sink{none, &m, 0});
    delete[] b;
  }
  template<typename A> static void act(A &&a) {
    journal j;
    start<F>(j);
    byte_t *in = new byte_t[C::in + 1], *out = new byte_t[O + 1];
    vp_sym_bytes(in, C::in);
    std::size_t n = 0, m = 0;
    a(source{in, &n}, sink{out, &m, O});
    vp_assert(n == C::in && m == O, "an action consumes and produces what it announces");
    vp_assert_defined(out, O, "an action emits no uninitialised memory");
    vp_undef(out, O);
    a(in, out);
    vp_assert_defined(out, O, "an action emits no uninitialised memory");
    vp_assert(a.input_size() == C::in && a.output_size() == O, "announced sizes are no uninitialised memory");
    delete[] in;
    delete[] out;
  }
  static void go() {
    new_pool<F>();
    values<bare<As>...> v;
    v.template any<F>();
    for (unsigned how = 0; how < 3; how++) {
      byte_t *p = new byte_t[L];
      send(v, p, how, typename mkseq<sizeof...(As)>::type{});
      vp_assert_defined(p, L, "a request has no uninitialised memory");
      delete[] p;
    }
    response(std::is_void<Ret>{});
    act(upd::action{&C::fn, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}});
    act(upd::no_storage_action{typename C::handle{}, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}});
    plain<R, ANY> a; plain<R, WEAK> w;
    act(a[I]); act(w[I]);
    auto moved = std::move(a);
    act(moved[I]);
    vp_cover("call");
  }
};
template<typename R, std::size_t... Is> void calls(seq<Is...>) { DUMMY((call<R, Is>::go(), 0)); }
template<typename R> void calls() { calls<R>(typename mkseq<R::n>::type{}); }
template<typename F> void calls_small() { calls<small<F>>(); }
template<typename F> void calls_mixed() { calls<mixed<F>>(); }
template<typename F> void calls_exts() { calls<exts<F>>(); }
ALL(calls_small) ALL(calls_mixed) ALL(calls_exts)

// ---- sessions
template<typename D> void emit(D &d) {
  byte_t b[24];
  std::size_t n = 0;
  switch (vp_choose(4)) {
  case 0: // all bytes and one more
    while (d.is_loaded() && n < 23) { b[n] = d.get(); n++; }
    b[n++] = d.get();
    break;
  case 1: // some of them, the rest later
    b[n++] = d.get();
    break;
  case 2:
    b[n++] = d.get();
    d.write_to(sink{b, &n, 24});
    break;
  default: d.write_to(sink{b, &n, 24});
  }
  vp_assert(n <= 24, "harness: room");
  vp_assert_defined(b, n, "a dispatcher emits no uninitialised memory");
}
template<typename F> using peer = ring<F, void(), void(const byte_t (&)[9])>;
template<typename R, typename D> void send(D &d, bool separate) {
  packet<R> p;
  any_packet(p);
  const std::size_t cut = vp_choose(2) ? p.len - 1 : 0;
  upd::packet_status s{};
  try {
    for (std::size_t i = 0; i < cut; i++) {
      s = d.put(p.bytes[i]);
      if (separate && i == 0 && d.is_loaded()) { byte_t b = d.get(); vp_assert_defined(&b, 1, "a dispatcher emits no uninitialised memory"); }
    }
    std::size_t n = 0;
    s = d.read_from(source{p.bytes + cut, &n});
  } catch (boom &) {
    vp_assert(!d.is_loaded(), "no response is pending after an exception");
    vp_cover("thrown");
  }
  vp_assert_defined(&s, sizeof s, "the status of a packet is no uninitialised memory");
}
template<typename R, typename D> void after_moves(D &d, unsigned how) {
  using F = typename R::format;
  if (how == 0) { // a reply
    byte_t b[10];
    std::size_t n = 0;
    bool r = d.reply(sink{b, &n, 10}, peer<F>::template key<1>());
    if (r) { vp_assert(n == 10, "a reply is a whole request"); vp_cover("replied"); }
    vp_assert_defined(b, n, "a reply has no uninitialised memory");
  }
  if (how == 1) d.template replace<1>(typename R::template other<1, 1>::handle{});
}
template<typename R, typename D> void sessions(bool separate) {
  using F = typename R::format;
  new_pool<F>();
  journal j;
  start<F>(j);
  g_throw = ~0u;
  const unsigned what = vp_choose(4);
  if (what == 3) { g_throw = vp_choose(2); g_code = 1; }
  std::unique_ptr<D> d{new D};
  byte_t b = d->get();
  vp_assert_defined(&b, 1, "a dispatcher emits no uninitialised memory");
  vp_assert(!d->is_loaded(), "no response is pending at first");
  send<R>(*d, separate);
  if (what == 2) d.reset(new D{std::move(*d)});
  else after_moves<R>(*d, what);
  emit(*d);
  if (!separate) { byte_t t[24]; std::size_t n = 0; d->write_to(sink{t, &n, 24}); vp_assert_defined(t, n, "a dispatcher emits no uninitialised memory"); }
  send<R>(*d, separate);
  emit(*d);
  vp_cover("session");
}
typedef fmt<LE, TC> LT; typedef fmt<BE, OB> BB; typedef fmt<BE, SM> BS; typedef fmt<LE, OC> LO;
#define SESSION(NAME, RING)                                                                                            \
  VP_CASE(NAME##_sa) { sessions<RING, single<RING, ANY>>(false); } VP_CASE(NAME##_sw) { sessions<RING, single<RING, WEAK>>(false); } \
  VP_CASE(NAME##_da) { sessions<RING, dbl<RING, ANY>>(true); } VP_CASE(NAME##_dw) { sessions<RING, dbl<RING, WEAK>>(true); }
typedef small<BB> RS; typedef mixed<BS> RM; typedef exts<LT> RX;
SESSION(small, RS)
#ifdef MORE
SESSION(mixed, RM) SESSION(exts, RX)
#endif
