// C10 C11 C12 (and the key and action part of C06): keys and actions.
#include "user.hpp"
#include "rpc.hpp"
#include <list>
using namespace rpc;

// Writes into a buffer, counting.
struct sink { byte_t *p; std::size_t *n; std::size_t max; void operator()(byte_t b) { if (*n < max) p[*n] = b; ++*n; } };
struct source { const byte_t *p; std::size_t *n; byte_t operator()() { ++*n; return *p++; } };

template<typename T> static T g_hook_value;
static unsigned g_hook_calls;
template<typename T> struct hooks {
  static void fn(T v) { g_hook_calls++; g_hook_value<T> = v; }
  struct functor { unsigned *calls; T *got; void operator()(T v) { ++*calls; *got = v; } };
  struct cfunctor { unsigned *calls; T *got; void operator()(const T &v) const { ++*calls; *got = v; } };
};

template<typename R, std::size_t I, typename Sig = typename R::template sig<I>> struct check;
template<typename R, std::size_t I, typename Ret, typename... As>
struct check<R, I, Ret(As...)> {
  using F = typename R::format;
  using C = cb<I, Ret(As...)>;
  using V = bare<Ret>;
  using K = typename R::keyring::template key_t<typename C::handle>;
  using vals = values<bare<As>...>;
  using idx = typename mkseq<sizeof...(As)>::type;
  static constexpr std::size_t L = R::isize + C::in;
  // ---- C10
  template<std::size_t... Is> static void send(const K &k, vals &v, sink s, seq<Is...>) { k(pick<Is>::get(v)...).write_to(s); }
  template<std::size_t... Is> static typename K::tuple_t tup(vals &v, seq<Is...>) { return typename K::tuple_t{pick<Is>::get(v)...}; }
  static void request() {
    vals v; v.template any<F>();
    byte_t want[L], *got = new byte_t[L];
    R::put_index(want, I);
    pack_values<F>(want + R::isize, v);
    const K k = R::template key<I>();
    vp_assert(K::index == I && K::endianess == F::e && K::signed_mode == F::s && sizeof(typename K::index_t) == R::isize, "a key carries its index and the format of the keyring");
    vp_assert(K::payload_length == L, "the announced payload length is the size of the packet");
    std::size_t n = 0;
    send(k, v, sink{got, &n, L}, idx{});
    vp_assert(n == L, "a packet has the announced payload length");
    vp_assert(same(got, want, L), "a packet is the index followed by the packed arguments");
    for (std::size_t i = 0; i < L; i++) vp_log(got[i]);
    vals w; w.template any<F>();   // the same key again, with other arguments
    pack_values<F>(want + R::isize, w);
    n = 0;
    send(k, w, sink{got, &n, L}, idx{});
    vp_assert(n == L && same(got, want, L), "a key can be used again with other arguments");
    tupled(w, k, got, want, std::integral_constant<bool, sizeof...(As) != 0>{});
#if __cplusplus >= 201703L
    auto k2 = typename R::keyring{}.template get<C::fn>();
    vp_assert(std::is_same<decltype(k2), K>::value && k2.index == I, "both ways to get a key give the same key");
#endif
    delete[] got;
    vp_cover("request");
  }
  static void tupled(vals &w, const K &k, byte_t *got, byte_t *want, std::true_type) {
    auto t = tup(w, idx{});
    std::size_t n = 0;
    t.invoke(k).write_to(sink{got, &n, L});
    vp_assert(n == L && same(got, want, L), "invoking a tuple on a key gives the packet of its values");
  }
  static void tupled(vals &, const K &, byte_t *, byte_t *, std::false_type) {}
  // ---- C11
  static void response() { response1(std::is_void<Ret>{}); }
  static void response1(std::true_type) {
    const K k = R::template key<I>();
    std::size_t n = 0;
    byte_t none[1] = {};
    k.read_from(source{none, &n});
    vp_assert(n == 0, "reading a void response consumes nothing");
    unsigned calls = 0;
    auto a = k.with_hook([&calls]() { calls++; });
    std::size_t out = 0;
    a(source{none, &n}, sink{none, &out, 0});
    vp_assert(n == 0 && calls == 1 && out == 0, "the hook of a void response is called once and consumes nothing");
    vp_cover("void response");
  }
  static void response1(std::false_type) {
    constexpr std::size_t S = wire<V>::size;
    const K k = R::template key<I>();
    byte_t *bytes = new byte_t[S];
    vp_sym_bytes(bytes, S);
    V want, r;
    wire<V>::template unpack<F>(bytes, want);
    std::size_t n = 0;
    static_assert(std::is_same<typename K::return_t, V>::value, "a key gives values");
    typename K::return_t got = k.read_from(source{bytes, &n});
    vp_assert(n == S, "reading a response consumes exactly its bytes");
    vp_assert(wire<V>::equal(want, got), "a response decodes to the value its bytes encode");
    wire<V>::log(got);
    wire<V>::template any<F>(r);
    wire<V>::template pack<F>(bytes, r);
    n = 0;
    got = k.read_from(source{bytes, &n});
    vp_assert(n == S && wire<V>::equal(r, got), "a response decodes to the value returned by the callee");
    // hooks
    unsigned calls = 0, ccalls = 0;
    V seen{}, cseen{};
    auto a = k.with_hook(typename hooks<V>::functor{&calls, &seen});
    auto b = k.with_hook(upd::unevaluated<void (*)(V), &hooks<V>::fn>{});
    auto c = k.with_hook(typename hooks<V>::cfunctor{&ccalls, &cseen});
    vp_assert(a.input_size() == S && b.input_size() == S && a.output_size() == 0 && b.output_size() == 0, "a hook consumes the response and produces nothing");
    std::size_t out = 0;
    byte_t none[1];
    g_hook_calls = 0;
    n = 0; a(source{bytes, &n}, sink{none, &out, 0});
    vp_assert(n == S && calls == 1 && wire<V>::equal(seen, r), "a hook is called once with the value of the response");
    n = 0; b(source{bytes, &n}, sink{none, &out, 0});
    vp_assert(n == S && g_hook_calls == 1 && wire<V>::equal(g_hook_value<V>, r), "a stateless hook is called once with the value of the response");
    n = 0; c(source{bytes, &n});
    vp_assert(n == S && ccalls == 1 && wire<V>::equal(cseen, r), "a const hook is called once with the value of the response");
    // a second response through the same hooks
    vp_sym_bytes(bytes, S);
    wire<V>::template unpack<F>(bytes, want);
    n = 0; a(source{bytes, &n}, sink{none, &out, 0});
    vp_assert(n == S && calls == 2 && wire<V>::equal(seen, want), "a hook is called once per response");
    n = 0; b(source{bytes, &n}, sink{none, &out, 0});
    vp_assert(n == S && g_hook_calls == 2 && wire<V>::equal(g_hook_value<V>, want), "a stateless hook is called once per response");
#if __cplusplus >= 201703L
    auto d = k.template with_hook<hooks<V>::fn>();
    n = 0; d(source{bytes, &n}, sink{none, &out, 0});
    vp_assert(n == S && g_hook_calls == 3 && wire<V>::equal(g_hook_value<V>, want), "a stateless hook given as a template argument");
#endif
    vp_assert(out == 0, "hooks produce nothing");
    delete[] bytes;
    vp_cover("response");
  }
  // ---- C12
  struct functor { unsigned *n; Ret operator()(As... as) { ++*n; return C::fn(as...); } };
  struct cfunctor { Ret operator()(As... as) const { return C::fn(as...); } };
  template<typename A> static void run(A &a, const byte_t *in, const char *) {
    vp_assert(a.input_size() == C::in && a.output_size() == C::out, "an action announces the sizes of its parameters and result");
    journal j, w;
    w.calls = 0;
    C::template expect<F>(in, w);
    byte_t *out = new byte_t[C::out + 1], want[C::out + 1];
    std::size_t n = 0, m = 0;
    rpc::start<F>(j);
    a(source{in, &n}, sink{out, &m, C::out});
    C::template respond<F>(0, want);
    vp_assert(n == C::in, "an action reads exactly its announced input size");
    vp_assert(j == w, "an action calls its callback once with the values of its input");
    vp_assert(m == C::out, "an action writes exactly its announced output size");
    vp_assert(same(out, want, C::out), "an action writes the serialized return value");
    for (std::size_t i = 0; i < C::out; i++) vp_log(out[i]);
    delete[] out;
  }
  static void actions() {
    new_pool<F>();
    byte_t *in = new byte_t[C::in + 1];
    vp_sym_bytes(in, C::in);
    byte_t *exact = new byte_t[C::in];
    std::memcpy(exact, in, C::in);
    upd::endianess_h<F::e> e; upd::signed_mode_h<F::s> s;
    unsigned calls = 0;
    upd::action a{&C::fn, e, s}, b{C::fn, e, s}, c{functor{&calls}, e, s}, d{cfunctor{}, e, s};
    const upd::action f{[](As... as) -> Ret { return C::fn(as...); }, e, s};
    upd::no_storage_action g{typename C::handle{}, e, s};
    const upd::no_storage_action h{typename C::handle{}, e, s};
    run(a, exact, ""); run(b, exact, ""); run(c, exact, ""); run(d, exact, ""); run(f, exact, ""); run(g, exact, ""); run(h, exact, "");
    run(c, exact, "");
    vp_assert(calls == 2, "the wrapped functor is called once per invocation");
    upd::no_storage_action g2 = h;
    run(g2, exact, "");
    // input-only
    journal j, w;
    C::template expect<F>(exact, w);
    rpc::start<F>(j);
    std::size_t n = 0;
    a(source{exact, &n});
    vp_assert(n == C::in && j == w, "input-only invocation reads the input, calls once and discards the result");
    delete[] in; delete[] exact;
    vp_cover("actions");
  }
};

template<typename R, std::size_t... Is> void all_requests(seq<Is...>) { DUMMY(check<R, Is>::request()); }
template<typename R, std::size_t... Is> void all_responses(seq<Is...>) { DUMMY(check<R, Is>::response()); }
template<typename R, std::size_t... Is> void all_actions(seq<Is...>) { DUMMY(check<R, Is>::actions()); }
template<typename R> void requests() { all_requests<R>(typename mkseq<R::n>::type{}); }
template<typename R> void responses() { all_responses<R>(typename mkseq<R::n>::type{}); }
template<typename R> void actions() { all_actions<R>(typename mkseq<R::n>::type{}); }
#if defined(C10)
#define CHECK requests
#elif defined(C11)
#define CHECK responses
#else
#define CHECK actions
#endif

template<typename F> using basic = ring<F, void(), i16(u8), ll(u16, bool, i32), void(i8, u32), u8(const i32 &), bool(ll)>;
template<typename F> using arrays = ring<F, std::array<i16, 2>(std::array<u8, 3>, i8), bool(const u16 (&)[2], bool), void(const std::array<i16, 2> &, char), std::array<std::array<u8, 2>, 2>(u8, u8, u8, u8, u8, u8, i16)>;
template<typename F> using wide = ring<F, wchar_t(char16_t), char32_t(unsigned long long), unsigned long(char, signed char), unsigned long long(long, short)>;
template<typename F> using users = ring<F, vec(u8), cached(vec, i16), tiny(cached), void(const tiny &, outer), withar(const withar &), std::array<tiny, 2>(std::array<vec, 2>, u8), u8(const tiny (&)[2], u8), outer()>;
template<typename F> using refs = ring<F, const i16 &(u8), std::array<i16, 2> &(), const u32(bool), const vec &(i16)>;
template<typename F> using many = ring<F, u8(u8, i8, u16, i16, u32, bool, i8, u8, i16, u16, char, i32, bool, u8), void(), i16(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i16, u8), ll(i16, i16, i16, i16, i16, i16, i16, i16, u8, i16, i16)>;
template<typename F> void c_many() { CHECK<many<F>>(); }
template<typename F> void c_basic() { CHECK<basic<F>>(); }
template<typename F> void c_arrays() { CHECK<arrays<F>>(); }
template<typename F> void c_wide() { CHECK<wide<F>>(); }
template<typename F> void c_users() { CHECK<users<F>>(); }

#ifdef C06
VP_CASE(users_requests) { requests<users<fmt<LE, TC>>>(); requests<users<fmt<BE, OB>>>(); }
VP_CASE(users_responses) { responses<users<fmt<LE, TC>>>(); responses<users<fmt<BE, SM>>>(); }
VP_CASE(users_actions) { actions<users<fmt<LE, OC>>>(); }
VP_CASE(users_actions2) { actions<users<fmt<BE, TC>>>(); }
#else
VP_CASE(le_sm) { c_basic<fmt<LE, SM>>(); c_arrays<fmt<LE, SM>>(); }
VP_CASE(le_oc) { c_basic<fmt<LE, OC>>(); c_arrays<fmt<LE, OC>>(); }
VP_CASE(le_tc) { c_basic<fmt<LE, TC>>(); c_arrays<fmt<LE, TC>>(); }
VP_CASE(le_ob) { c_basic<fmt<LE, OB>>(); c_arrays<fmt<LE, OB>>(); }
VP_CASE(be_sm) { c_basic<fmt<BE, SM>>(); c_arrays<fmt<BE, SM>>(); }
VP_CASE(be_oc) { c_basic<fmt<BE, OC>>(); c_arrays<fmt<BE, OC>>(); }
VP_CASE(be_tc) { c_basic<fmt<BE, TC>>(); c_arrays<fmt<BE, TC>>(); }
VP_CASE(be_ob) { c_basic<fmt<BE, OB>>(); c_arrays<fmt<BE, OB>>(); }
VP_CASE(refs) { CHECK<refs<fmt<LE, TC>>>(); CHECK<refs<fmt<BE, OB>>>(); CHECK<refs<fmt<LE, SM>>>(); }
VP_CASE(wide) { c_wide<fmt<LE, TC>>(); c_wide<fmt<BE, OB>>(); c_wide<fmt<BE, SM>>(); c_wide<fmt<LE, OC>>(); }
VP_CASE(many_le) { c_many<fmt<LE, TC>>(); c_many<fmt<LE, SM>>(); }
VP_CASE(many_be) { c_many<fmt<BE, OB>>(); c_many<fmt<BE, TC>>(); }
VP_CASE(users) { c_users<fmt<LE, TC>>(); c_users<fmt<BE, OB>>(); }
#endif

// payloads and responses beyond 255 bytes, indices of two bytes
#ifdef BIGRING
template<typename S, typename F, typename... X> struct big_impl;
template<std::size_t... Is, typename F, typename... X> struct big_impl<seq<Is...>, F, X...> {
  template<std::size_t> using v = void();
  using type = ring<F, v<Is>..., X...>;
};
#endif
using big300 = std::array<u8, 300>;
template<typename R, std::size_t I> void large() {
  using F = typename R::format;
  using C = typename R::template callback<I>;
  static big300 a;
  for (std::size_t i = 0; i < 300; i++) a[i] = (u8)(i * 5 + 1);
  a[0] = vp_any<u8>(); a[255] = vp_any<u8>(); a[256] = vp_any<u8>(); a[299] = vp_any<u8>();
  i16 x = any_representable<i16>(F::s);
  constexpr std::size_t L = R::isize + 302;
  static byte_t want[L];
  byte_t *got = new byte_t[L];
  R::put_index(want, I);
  pack_all<F>(want + R::isize, a, x);
  auto k = R::template key<I>();
  std::size_t n = 0;
  vp_assert(k.payload_length == L, "payload length beyond 255 bytes");
  k(a, x).write_to(sink{got, &n, L});
  vp_assert(n == L && same(got, want, L), "packets beyond 255 bytes");
  // the action
  upd::action act{&C::fn, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
  upd::no_storage_action nact{typename C::handle{}, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
  new_pool<F>();
  static byte_t out[300], resp[300];
  C::template respond<F>(0, resp);
  static journal w;
  w = journal{};
  C::template expect<F>(want + R::isize, w);
  for (int pass = 0; pass < 2; pass++) {
    static journal j;
    j = journal{};
    rpc::start<F>(j);
    std::size_t in = 0, m = 0;
    if (pass) nact(source{got + R::isize, &in}, sink{out, &m, 300}); else act(source{got + R::isize, &in}, sink{out, &m, 300});
    vp_assert(in == 302 && m == 300 && (pass ? nact.input_size() : act.input_size()) == 302 && (pass ? nact.output_size() : act.output_size()) == 300, "sizes beyond 255 bytes");
    vp_assert(j == w && same(out, resp, 300), "a call beyond 255 bytes");
  }
  std::size_t in = 0;
  big300 r = k.read_from(source{out, &in});
  vp_assert(in == 300 && same(r.data(), resp, 300), "a response beyond 255 bytes");
  delete[] got;
  vp_cover("large");
}
VP_CASE(large) { large<ring<fmt<BE, SM>, void(), big300(big300, i16)>, 1>(); }
VP_CASE(large2) { large<ring<fmt<LE, OB>, big300(const big300 &, i16)>, 0>(); }
