// C23 C24: the same program, in every build configuration and for a host of the opposite byte order.
// Every observable is compared with the specification of the wire format, which does not depend on either.
#include "ints.cpp"
#include "disp.cpp"
#include <upd/typelist.hpp>

typedef std::array<std::array<i16, 2>, 2> nested;
// ---- tuples, views, arrays, extended types
template<typename F, typename... Ts> struct fields {
  static constexpr std::size_t N = sum_size<Ts...>::value;
  using tup = upd::tuple<F::e, F::s, Ts...>;
  template<std::size_t I, typename V> static bool read_one(V &t, values<Ts...> &v) { return eq(pick<I>::get(v), t.template get<I>()); }
  template<typename V, std::size_t... Is> static bool reads(V &t, values<Ts...> &v, seq<Is...>) { bool r = true; DUMMY(r &= read_one<Is>(t, v)); return r; }
  template<typename V, std::size_t... Is> static void writes(V &t, values<Ts...> &v, seq<Is...>) { DUMMY((t.template set<Is>(pick<Is>::get(v)), 0)); }
  template<std::size_t... Is> static tup build(values<Ts...> &v, seq<Is...>) { return tup{pick<Is>::get(v)...}; }
  template<std::size_t I> static int unpack_one(const byte_t *p, values<Ts...> &v) { wire<typename nth<I, Ts...>::type>::template unpack<F>(p + off<I, Ts...>::value, pick<I>::get(v)); return 0; }
  template<std::size_t... Is> static void unpack(const byte_t *p, values<Ts...> &v, seq<Is...>) { DUMMY(unpack_one<Is>(p, v)); }
  static void go() {
    typename mkseq<sizeof...(Ts)>::type s;
    values<Ts...> v, w;
    v.template any<F>();
    byte_t want[N], buf[N];
    pack_values<F>(want, v);
    tup t = build(v, s);
    vp_assert(tup::size == N && sizeof(tup) == N && t.end() - t.begin() == N, "the announced size of a tuple");
    vp_assert(same(t.begin(), want, N), "the same values give the same bytes");
    for (std::size_t i = 0; i < N; i++) vp_log(t[i]);
    vp_assert(reads(t, v, s), "the same bytes give the same values");
    std::list<byte_t> l(N);
    upd::tuple_view<std::list<byte_t>::iterator, F::e, F::s, Ts...> lv{l.begin()};
    writes(lv, v, s);
    vp_assert(same_it(l.begin(), want, N), "the same values give the same bytes in a list");
    vp_assert(reads(lv, v, s), "the same bytes in a list give the same values");
    // the reverse direction, from any bytes
    vp_sym_bytes(buf, N);
    unpack(buf, w, s);
    upd::tuple_view<const byte_t *, F::e, F::s, Ts...> bv{buf};
    vp_assert(reads(bv, w, s), "received bytes give the same values");
    // and between formats
    constexpr auto E2 = F::e == LE ? BE : LE;
    constexpr auto S2 = F::s == TC ? OB : F::s == OB ? SM : F::s == SM ? OC : TC;
    using F2 = fmt<E2, S2>;
    upd::tuple<E2, S2, Ts...> o;
    values<Ts...> x; x.template any<F>();
    upd::tuple<F::e, F::s, Ts...> from = build(x, s);
    vp_assume(representable_all(x, S2, s));
    o = std::move(from);
    pack_values<F2>(want, x);
    vp_assert(same(o.begin(), want, N), "assigning between formats gives the same bytes");
    vp_cover("fields");
  }
  template<std::size_t... Is> static bool representable_all(values<Ts...> &x, signed_mode m, seq<Is...>) { bool r = true; DUMMY(r &= wire<Ts>::rep(pick<Is>::get(x), m)); return r; }
};
template<typename F> void all_fields() {
  fields<F, bool, i16, u32, ll, i8[3]>::go();
  fields<F, u8, nested, i32, u16, i8, unsigned long long>::go();
  fields<F, vec, char, tiny, std::array<tiny, 2>, long, u32[2]>::go();
}
// ---- announced sizes and indices
template<typename R, std::size_t I> void sizes1() {
  using C = typename R::template callback<I>;
  auto k = R::template key<I>();
  vp_assert(k.index == I && sizeof(typename decltype(k)::index_t) == R::isize, "the index of a key and its size");
  vp_assert(k.payload_length == R::isize + C::in, "the announced payload length");
  upd::action a{&C::fn, upd::endianess_h<R::format::e>{}, upd::signed_mode_h<R::format::s>{}};
  vp_assert(a.input_size() == C::in && a.output_size() == C::out, "the announced sizes of an action");
  plain<R, ANY> pa; plain<R, WEAK> pw;
  vp_assert(pa[I].input_size() == C::in && pa[I].output_size() == C::out && pw[I].input_size() == C::in && pw[I].output_size() == C::out, "the announced sizes of the actions of a dispatcher");
}
template<typename R, std::size_t... Is> void sizes(seq<Is...>) {
  using K = typename R::keyring;
  vp_assert(K::size == R::n, "the size of a keyring");
  DUMMY((sizes1<R, Is>(), 0));
  vp_assert(sizeof(single<R, WEAK>) >= R::isize + R::max_in(), "room for a request");
  vp_assert(sizeof(dbl<R, WEAK>) - sizeof(plain<R, WEAK>) >= R::isize + R::max_in() + R::max_out(), "room for a request and a response");
  vp_cover("sizes");
}
template<typename F> void calls() { all_remotes<small<F>>(); sizes<small<F>>(typename mkseq<small<F>::n>::type{}); }
template<typename F> void ext_calls() { all_remotes<exts<F>>(); sizes<exts<F>>(typename mkseq<exts<F>::n>::type{}); }
template<typename F> void wide_calls() {
  using R = wide<F, 260, i16(u8, i16), void(u32)>;
  remote<R, 0>::go(); remote<R, 258>::go(); remote<R, 259>::go(); sizes1<R, 258>(); sizes1<R, 0>();
}
// ---- a stream through every buffer
template<typename F> void stream() {
  using R = mixed<F>;
  new_pool<F>();
  session<R> w1, w2;
  single<R, ANY> d1; dbl<R, WEAK> d2;
  journal j1, j2;
  for (int i = 0; i < 2; i++) {
    packet<R> p;
    any_packet(p);
    start<F>(j1);
    put_all<R>(w1, d1, p);
    if (p.known()) drain(w1, d1);
    start<F>(j2);
    read_rest<R>(w2, d2, p, 0, 0);
    if (p.known()) drain(w2, d2);
  }
  vp_assert(j1 == w1.log && j2 == w2.log, "the same packets lead to the same calls");
  vp_cover("stream");
}
template<typename F, typename T> void integer() { encode<F, T>(); roundtrip<F, T>(); decode<F, T>(); }
#define X(NAME, ...) VP_CASE(int_##NAME) { SPEC_ALL_FORMATS(integer, __VA_ARGS__); }
SPEC_INT_TYPES(X)
#define ALL(NAME, ...)                                                                                                 \
  VP_CASE(NAME##_1) { __VA_ARGS__<fmt<LE, SM>>(); __VA_ARGS__<fmt<BE, TC>>(); }                                        \
  VP_CASE(NAME##_2) { __VA_ARGS__<fmt<LE, TC>>(); __VA_ARGS__<fmt<BE, OB>>(); }                                        \
  VP_CASE(NAME##_3) { __VA_ARGS__<fmt<LE, OC>>(); __VA_ARGS__<fmt<BE, SM>>(); }                                        \
  VP_CASE(NAME##_4) { __VA_ARGS__<fmt<LE, OB>>(); __VA_ARGS__<fmt<BE, OC>>(); }
ALL(fields, all_fields)
ALL(calls, calls)
ALL(exts, ext_calls)
// beyond 255 bytes, by one element and by many fields
template<typename F> using bulky = ring<F, u16(const u8 (&)[260], u8), std::array<u8, 258>(u8), void(std::array<u16, 129>)>;
template<typename F> void big_fields() {
  fields<F, u8, u8[300], i16>::go();
  fields<F, u16, std::array<u8, 150>, i8, std::array<u16, 75>, i32>::go();
}
template<typename F> void big_calls() {
  all_remotes<bulky<F>>();
  sizes<bulky<F>>(mkseq<3>::type{});
}
VP_CASE(big_1) { big_fields<fmt<BE, TC>>(); }
VP_CASE(big_2) { big_fields<fmt<LE, OB>>(); }
VP_CASE(big_3) { big_calls<fmt<BE, TC>>(); }
VP_CASE(big_4) { big_calls<fmt<LE, OB>>(); }
VP_CASE(wide) { wide_calls<fmt<BE, OB>>(); wide_calls<fmt<LE, TC>>(); }
#define STREAMS(NAME, ...)                                                                                             \
  VP_CASE(NAME##_1) { __VA_ARGS__<fmt<LE, TC>>(); } VP_CASE(NAME##_2) { __VA_ARGS__<fmt<BE, SM>>(); }                  \
  VP_CASE(NAME##_3) { __VA_ARGS__<fmt<BE, OC>>(); } VP_CASE(NAME##_4) { __VA_ARGS__<fmt<LE, OB>>(); }
#ifndef NOSTREAM
STREAMS(stream, stream)
#endif
