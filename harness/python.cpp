// C29: keys and dispatchers exposed to Python (over a model of pybind11) speak the protocol of the C++ ones.
#include "stream.hpp"
#include <upd/python.hpp>
namespace pb = pybind11;
using pb::object;

// Callbacks with plain names, so that the bindings find them
i16 c1(u8 a) { return cb<1, i16(u8)>::fn(a); }
u8 c2(i16 a, bool b) { return cb<2, u8(i16, bool)>::fn(a, b); }
void c3(u16 a) { cb<3, void(u16)>::fn(a); }
void c0() { cb<0, void()>::fn(); }
u32 m0(i32 a, std::array<u8, 2> b) { return cb<0, u32(i32, std::array<u8, 2>)>::fn(a, b); }
bool m1(const i8 &a) { return cb<1, bool(const i8 &)>::fn(a); }
ll m2() { return cb<2, ll()>::fn(); }
std::array<i16, 2> m3(u16 a) { return cb<3, std::array<i16, 2>(u16)>::fn(a); }
unsigned long long m4(ll a) { return cb<4, unsigned long long(ll)>::fn(a); }

template<typename F> struct small : ring<F, void(), i16(u8), u8(i16, bool), void(u16)> {
  using keyring = upd::keyring<F::e, F::s, upd::unevaluated<void (*)(), c0>, upd::unevaluated<i16 (*)(u8), c1>, upd::unevaluated<u8 (*)(i16, bool), c2>, upd::unevaluated<void (*)(u16), c3>>;
  static const char *name(std::size_t i) { static const char *const n[] = {"c0", "c1", "c2", "c3"}; return n[i]; }
};
template<typename F> struct mixed : ring<F, u32(i32, std::array<u8, 2>), bool(const i8 &), ll(), std::array<i16, 2>(u16), unsigned long long(ll)> {
  using keyring = upd::keyring<F::e, F::s, upd::unevaluated<u32 (*)(i32, std::array<u8, 2>), m0>, upd::unevaluated<bool (*)(const i8 &), m1>, upd::unevaluated<ll (*)(), m2>,
                               upd::unevaluated<std::array<i16, 2> (*)(u16), m3>, upd::unevaluated<unsigned long long (*)(ll), m4>>;
  static const char *name(std::size_t i) { static const char *const n[] = {"m0", "m1", "m2", "m3", "m4"}; return n[i]; }
};

// ---- Python
struct python {
  pb::module unpadded, mod;
  python() { // as py/unpadded/_details.cpp
    pb::class_<upd::action>{unpadded, "_Action"};
    pb::enum_<upd::packet_status>{unpadded, "PacketStatus"};
  }
};
inline object pybytes(const byte_t *p, std::size_t n) { return pb::bytes{(const char *)p, n}; }
inline bool is_bytes(const object &o, const byte_t *p, std::size_t n) { return o.p->k == pb::model::BYTES && o.p->len == n && same(o.p->bytes, p, n); }
template<typename T> struct py { // a Python value is a C++ one
  static bool is(const object &o, T v) {
    auto k = std::is_same<T, bool>::value ? pb::model::BOOL : pb::model::INT;
    return (o.p->k == k) & (o.p->num == (long long)v) & (((T)-1 < (T)0) | o.p->uns | ((long long)v >= 0));
  }
};
template<typename T, std::size_t N> struct py<std::array<T, N>> {
  static bool is(const object &o, const std::array<T, N> &v) {
    if (o.p->k != pb::model::LIST || o.p->len != N) return false;
    bool r = true;
    for (std::size_t i = 0; i < N; i++) r &= py<T>::is(o.p->items[i], v[i]);
    return r;
  }
};
// a Python callback which does what the model expects of callback I replaced
template<unsigned Id, typename Sig> struct pycb;
template<unsigned Id, typename R, typename... As> struct pycb<Id, R(As...)> {
  struct fn : pb::model::callable {
    template<std::size_t... Is> static object go(object *a, std::index_sequence<Is...>) { return give(std::is_void<R>{}, a[Is].template cast<bare<As>>()...); }
    template<typename... Xs> static object give(std::true_type, Xs... xs) { cb<Id, R(As...)>::fn(xs...); return object{}; }
    template<typename... Xs> static object give(std::false_type, Xs... xs) { return pb::cast(cb<Id, R(As...)>::fn(xs...)); }
    object call(object *a, std::size_t n) override {
      vp_assert(n == sizeof...(As), "a Python callback gets as many arguments as the key has parameters");
      return go(a, std::index_sequence_for<As...>{});
    }
  };
  static pb::function make() { pb::model::value *v = pb::model::fresh(pb::model::FUNC); v->fn = new fn; return pb::function{object{v}}; }
};
template<typename F> pb::function pyfunction(F f) { return pb::cpp_function(f); }
struct pyraise { u32 what; };

// ---- keys
template<typename R, std::size_t I, typename Sig = typename R::template sig<I>> struct key;
template<typename R, std::size_t I, typename Ret, typename... As> struct key<R, I, Ret(As...)> {
  using F = typename R::format;
  using C = cb<I, Ret(As...)>;
  static constexpr std::size_t L = R::isize + C::in, O = C::out;
  template<std::size_t... Is> static object encode(const object &k, values<bare<As>...> &v, seq<Is...>) { return k.attr("encode")(pick<Is>::get(v)...); }
  static void response(const object &k, std::true_type) {
    vp_assert(k.attr("decode")(pybytes((const byte_t *)"", 0)).is_none(), "decoding a void response gives None");
    byte_t more[2] = {1, 2};
    vp_assert(k.attr("decode")(pybytes(more, 2)).is_none(), "decoding a void response gives None");
  }
  static void response(const object &k, std::false_type) {
    byte_t b[O + 1];
    vp_sym_bytes(b, O + 1);
    bare<Ret> want;
    wire<bare<Ret>>::template unpack<F>(b, want);
    vp_assert(py<bare<Ret>>::is(k.attr("decode")(pybytes(b, O)), want), "decode gives the value of the response");
    vp_assert(py<bare<Ret>>::is(k.attr("decode")(pybytes(b, O + 1)), want), "decode reads no more than the response");
    bool thrown = false;
    try { k.attr("decode")(pybytes(b, O - 1)); } catch (pb::cast_error &) { thrown = true; }
    vp_assert(thrown, "a response which is too short is an error");
    wire<bare<Ret>>::log(want);
  }
  static void go(const pb::module &m) {
    object k = m.attr(R::name(I));
    vp_assert(pb::cast<unsigned>(k.attr("index")()) == I, "an exposed key reports its index");
    for (int i = 0; i < 2; i++) {
      values<bare<As>...> v;
      v.template any<F>();
      byte_t want[L];
      R::put_index(want, I);
      pack_values<F>(want + R::isize, v);
      object b = encode(k, v, typename mkseq<sizeof...(As)>::type{});
      vp_assert(is_bytes(b, want, L), "encode gives exactly the packet of the key");
    }
    response(k, std::is_void<Ret>{});
    vp_cover("key");
  }
};
template<typename R, std::size_t... Is> void keys(seq<Is...>) {
  python p;
  upd::py::unpack_keyring(p.mod, typename R::keyring{});
  DUMMY((key<R, Is>::go(p.mod), 0));
}
#define RINGS(NAME, CALL)                                                                                              \
  VP_CASE(NAME##_1) { CALL(small<fmt<BE, OB>>) } VP_CASE(NAME##_2) { CALL(small<fmt<LE, SM>>) }                        \
  VP_CASE(NAME##_3) { CALL(mixed<fmt<LE, TC>>) } VP_CASE(NAME##_4) { CALL(mixed<fmt<BE, SM>>) }
#define KEYS(...) keys<__VA_ARGS__>(mkseq<__VA_ARGS__::n>::type{});
RINGS(keys, KEYS)
#ifdef MORE
VP_CASE(keys_5) { KEYS(small<fmt<BE, TC>>) } VP_CASE(keys_6) { KEYS(small<fmt<LE, OC>>) } VP_CASE(keys_7) { KEYS(mixed<fmt<BE, OC>>) } VP_CASE(keys_8) { KEYS(mixed<fmt<LE, OB>>) }
#endif

// ---- dispatchers
inline bool status_is(const object &o, status s) { return o.p->k == pb::model::ENUM && is((upd::packet_status)o.p->num, s); }
template<typename R, typename S> struct pysession {
  S s;
  object d;
  void put(byte_t b) {
    status want = s.put(b);
    vp_assert(status_is(d.attr("put")((int)b), want), "put reports the status of each byte");
  }
  void rest(const byte_t *p, std::size_t n) {
    status want = LOADING;
    for (std::size_t i = 0; i < n; i++) want = s.put(p[i]);
    std::size_t got = 0;
    object r = d.attr("read_from")(pyfunction([&got, p, n]() { vp_assert(got < n, "reading takes no byte past the packet"); return (int)p[got++]; }));
    vp_assert(got == n && status_is(r, want), "read_from consumes one packet and reports its status");
  }
  void get() {
    object l = d.attr("is_loaded")();
    vp_assert(l.p->k == pb::model::BOOL && (l.p->num != 0) == s.loaded(), "is_loaded tells whether output remains");
    byte_t b = s.get();
    vp_assert(py<byte_t>::is(d.attr("get")(), b), "get gives the bytes of the response in order");
  }
  void write() {
    byte_t want[16], out[16];
    std::size_t n = 0, m = 0;
    while (s.loaded()) want[n++] = s.get();
    d.attr("write_to")(pyfunction([&](byte_t b) { if (m < 16) out[m] = b; m++; }));
    vp_assert(m == n && same(want, out, n), "write_to gives the whole response and no more");
  }
  void drain() { while (s.loaded()) get(); get(); }
  template<typename P> void packet(const P &p) {
    unsigned cut = vp_choose(3);
    std::size_t at = cut == 0 ? 0 : cut == 1 ? (p.len > 1 ? 1 : 0) : p.len;
    for (std::size_t i = 0; i < at; i++) put(p.bytes[i]);
    if (at < p.len) rest(p.bytes + at, p.len - at);
  }
};
template<typename R, std::size_t I> void replace(object &d, pb::module &m) { d.attr("replace")(m.attr(R::name(I)), pycb<I + 1000, typename R::template sig<I>>::make()); }
template<typename R, std::size_t... Is> void replace_one(std::size_t i, object &d, pb::module &m, seq<Is...>) {
  static void (*const t[])(object &, pb::module &) = {&replace<R, Is>...};
  t[i](d, m);
}
template<typename R> void sessions(unsigned when) {
  using F = typename R::format;
  new_pool<F>();
  std::size_t live = vp_live();
  journal j;
  start<F>(j);
  python py;
  upd::py::declare_dispatcher(py.mod, "Dispatcher", typename R::keyring{});
  std::size_t ready = vp_live();
  {
    pysession<R, session<R, 64, 64, true>> x;
    x.d = py.mod.attr("Dispatcher")();
    const std::size_t r = vp_choose(R::n);
    auto swap = [&]() { replace_one<R>(r, x.d, py.mod, typename mkseq<R::n>::type{}); x.s.which[r] = 1; };
    if (when == 0) swap();
    packet<R> p, q;
    fill(p, r);
    if (when == 1) { // within a packet
      std::size_t at = R::isize > p.len ? p.len : p.len - 1;
      for (std::size_t i = 0; i < at; i++) x.put(p.bytes[i]);
      swap();
      x.rest(p.bytes + at, p.len - at);
    } else x.packet(p);
    if (when == 2) swap();
    if (vp_choose(2)) x.write(); else { if (x.s.loaded()) x.get(); if (when == 3) swap(); x.drain(); }
    if (when == 3 && !x.s.which[r]) swap();
#ifdef MORE
    any_packet(q);
#else
    const std::size_t some[] = {r, (r + 1) % R::n, R::n};
    fill(q, some[vp_choose(3)]);
#endif
    x.packet(q);
    x.drain();
    vp_assert(j == x.s.log, "exactly the addressed callback is called with the arguments of the packet, replaced ones included");
    vp_cover("session");
  }
  vp_assert(vp_live() == ready, "a dispatcher and its Python callbacks are destroyed");
  (void)live;
}
#define SESSIONS(NAME, ...) VP_CASE(NAME##_0) { sessions<__VA_ARGS__>(0); } VP_CASE(NAME##_1) { sessions<__VA_ARGS__>(1); } VP_CASE(NAME##_2) { sessions<__VA_ARGS__>(2); } VP_CASE(NAME##_3) { sessions<__VA_ARGS__>(3); }
SESSIONS(small, small<fmt<BE, OB>>) SESSIONS(mixed, mixed<fmt<LE, TC>>)
#ifdef MORE
SESSIONS(small_, small<fmt<LE, TC>>) SESSIONS(mixed_, mixed<fmt<BE, SM>>)
#endif

// ---- a Python callback which raises, or returns what does not fit
template<typename R> void raises() {
  using F = typename R::format;
  new_pool<F>();
  journal j;
  start<F>(j);
  python py;
  upd::py::declare_dispatcher(py.mod, "Dispatcher", typename R::keyring{});
  std::size_t ready = vp_live();
  {
    session<R> s;
    object d = py.mod.attr("Dispatcher")();
    u32 what = vp_any<u32>();
    int calls = 0, kind = vp_choose(2);
    long long wrong = vp_any<long long>();
    vp_assume(wrong < -32768 || wrong > 32767);
    d.attr("replace")(py.mod.attr("c1"), pyfunction([&, what](int x) -> long long { calls++; if (kind == 0) throw pyraise{what}; return wrong; }));
    byte_t req[R::isize + 1];
    R::put_index(req, 1);
    req[R::isize] = vp_any<byte_t>();
    for (std::size_t i = 0; i < R::isize; i++) d.attr("put")((int)req[i]);
    bool thrown = false;
    try { d.attr("put")((int)req[R::isize]); }
    catch (pyraise &e) { thrown = e.what == what && kind == 0; }
    catch (pb::cast_error &) { thrown = kind == 1; }
    vp_assert(thrown && calls == 1, "an exception of a Python callback reaches the code which feeds the dispatcher");
    vp_assert(!pb::cast<bool>(d.attr("is_loaded")()), "and no response is pending");
    pysession<R, session<R>> x;
    x.d = d;
    packet<R> q;
    const unsigned next = vp_choose(R::n);
    fill(q, next == 1 ? R::n : next);   // any other, or an unknown one
    x.packet(q);
    x.drain();
    vp_assert(j == x.s.log, "and the dispatcher goes on");
    vp_cover("raises");
  }
  vp_assert(vp_live() == ready, "nothing is leaked");
}
VP_CASE(raises_1) { raises<small<fmt<BE, TC>>>(); } VP_CASE(raises_2) { raises<small<fmt<LE, OB>>>(); }
