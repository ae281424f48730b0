// C20: actions own their callback.  C21: what never allocates.
#include "stream.hpp"
#include "user.hpp"
#include <memory>

typedef fmt<BE, OB> F;
static upd::endianess_h<F::e> E;
static upd::signed_mode_h<F::s> S;

// Counts its instances and notices being used outside its lifetime.
static int g_live;
struct tracked {
  u32 alive = 0x600d;
  u16 state;
  explicit tracked(u16 s) : state{s} { g_live++; }
  tracked(const tracked &o) : state{o.state} { o.check(); g_live++; }
  tracked(tracked &&o) : state{o.state} { o.check(); o.state = 0; g_live++; }
  tracked &operator=(const tracked &o) { o.check(); check(); state = o.state; return *this; }
  ~tracked() { check(); alive = 0; g_live--; }
  void check() const { vp_assert(alive == 0x600d, "a callback is used only between its construction and its destruction"); }
  u16 operator()(u8 x) { check(); state = (u16)(state + x); return state; }
};
struct ctracked : tracked {
  using tracked::tracked;
  u16 operator()(u8 x) const { check(); return (u16)(state + x); }
};
struct move_only {
  std::unique_ptr<u16> p;
  explicit move_only(u16 s) : p{new u16{s}} {}
  u16 operator()(u8 x) { *p = (u16)(*p + x); return *p; }
};
template<typename A> u16 call(A &a, u8 x) {
  byte_t b = x, out[2];
  std::size_t n = 0, m = 0;
  a(source{&b, &n}, sink{out, &m, 2});
  vp_assert(n == 1 && m == 2, "an action reads one byte and writes two");
  u16 r;
  wire<u16>::unpack<F>(out, r);
  return r;
}
static upd::action make(tracked &&t) { return upd::action{std::move(t), E, S}; }

#ifdef C20
template<typename T> void copies() {
  const std::size_t live = vp_live();
  u16 s = vp_any<u16>(), other = vp_any<u16>();
  u8 x = vp_any<u8>(), y = vp_any<u8>();
  const bool keeps = std::is_same<T, tracked>::value;
  {
    T f{s};
    upd::action a{f, E, S};
    vp_assert(g_live == 2, "an action holds one instance of its own");
    f.state = other;
    vp_assert(call(a, x) == (u16)(s + x), "changing the original is not visible through the action");
    vp_assert(f.state == other, "calling the action does not change the original");
    vp_assert(call(a, y) == (u16)(keeps ? s + x + y : s + y), "the state kept in a callback persists from one call to the next");
    const T &cf = f;
    upd::action b{static_cast<const ctracked &>(ctracked{s}), E, S};
    (void)cf;
    vp_assert(g_live == 3 && call(b, x) == (u16)(s + x), "a copy of a const callback");
  }
  vp_assert(g_live == 0, "every instance is destroyed exactly once");
  {
    T *f = new T{s};
    upd::action a{*f, E, S};
    upd::action b{*f, E, S};
    delete f;
    vp_assert(g_live == 2, "the original is gone");
    vp_assert(call(a, x) == (u16)(s + x), "the end of life of the original is not visible through the action");
    vp_assert(call(b, y) == (u16)(s + y), "each action has its own copy");
  }
  vp_assert(g_live == 0 && vp_live() == live, "no leak");
  {
    T f{s};
    upd::action a{std::move(f), E, S};
    vp_assert(call(a, x) == (u16)(s + x), "a callback moved in");
    upd::action b{T{other}, E, S};
    vp_assert(call(b, x) == (u16)(other + x), "a temporary callback");
    vp_assert(g_live == 3, "one instance each");
  }
  vp_assert(g_live == 0 && vp_live() == live, "no leak, no double destruction");
  vp_cover("copies");
}
VP_CASE(copies) { copies<tracked>(); }
VP_CASE(ccopies) { copies<ctracked>(); }
VP_CASE(moves) {
  const std::size_t live = vp_live();
  u16 s = vp_any<u16>(), other = vp_any<u16>();
  u8 x = vp_any<u8>(), y = vp_any<u8>();
  {
    upd::action a = make(tracked{s});
    vp_assert(g_live == 1, "one instance");
    vp_assert(call(a, x) == (u16)(s + x), "called");
    upd::action b{std::move(a)};
    vp_assert(g_live == 1 && call(b, y) == (u16)(s + x + y), "moving an action transfers its callback and its state");
    upd::action c = make(tracked{other});
    c = std::move(b);
    vp_assert(g_live == 1, "the callback of an action assigned to is destroyed");
    vp_assert(call(c, y) == (u16)(s + x + y + y), "assigning an action transfers its callback");
    upd::action d = make(tracked{other});
    std::swap(c, d);
    vp_assert(g_live == 2 && call(c, x) == (u16)(other + x) && call(d, x) == (u16)(s + x + y + y + x), "swapped actions");
    d = upd::action{};
    vp_assert(g_live == 1, "resetting an action destroys its callback");
    byte_t in = x, out[4];
    std::size_t n = 0, m = 0;
    upd::action none;
    none(source{&in, &n}, sink{out, &m, 4});
    d(source{&in, &n}, sink{out, &m, 4});
    vp_assert(n == 0 && m == 0, "an empty action does nothing");
    std::vector<upd::action> v;
    for (u16 i = 0; i < 3; i++) v.push_back(make(tracked{(u16)(s + i)}));
    for (u16 i = 0; i < 3; i++) vp_assert(call(v[i], x) == (u16)(s + i + x), "actions kept in a vector");
    vp_assert(g_live == 4, "one instance per action");
    v.erase(v.begin());
    vp_assert(g_live == 3 && call(v[0], y) == (u16)(s + 1 + x + y), "an action moved down");
  }
  vp_assert(g_live == 0 && vp_live() == live, "every instance is destroyed exactly once");
  vp_cover("moves");
}
static u16 twice(u8 x) { return (u16)(2 * x); }
static u16 thrice(u8 x) { return (u16)(3 * x); }
VP_CASE(others) {
  const std::size_t live = vp_live();
  u16 s = vp_any<u16>();
  u8 x = vp_any<u8>(), y = vp_any<u8>();
  {
    upd::action a{move_only{s}, E, S};
    move_only mo{(u16)(s + 1)};
    upd::action b{std::move(mo), E, S};
    vp_assert(!mo.p, "moved in");
    vp_assert(call(a, x) == (u16)(s + x) && call(a, y) == (u16)(s + x + y), "a move-only callback");
    vp_assert(call(b, x) == (u16)(s + 1 + x), "a move-only callback");
    std::vector<u16> v{s, 7};
    auto lam = [v](u8 z) mutable { v[0] = (u16)(v[0] + z); v.push_back(z); return v[0]; };
    upd::action c{lam, E, S};
    vp_assert(call(c, x) == (u16)(s + x) && call(c, y) == (u16)(s + x + y), "a lambda owning memory");
    vp_assert(lam(0) == s, "the original lambda is unchanged");
    upd::action d{std::move(lam), E, S};
    vp_assert(call(d, x) == (u16)(s + x), "a lambda moved in");
    u16 (*fp)(u8) = twice;
    upd::action e{fp, E, S};
    fp = thrice;
    vp_assert(call(e, x) == (u16)(2 * x), "a function pointer is copied");
    upd::action f{thrice, E, S};
    vp_assert(call(f, x) == (u16)(3 * x), "a function");
    u16 outer = s;
    upd::action g{[&outer](u8 z) { return outer = (u16)(outer + z); }, E, S};
    vp_assert(call(g, x) == (u16)(s + x) && outer == (u16)(s + x), "a reference captured on purpose");
  }
  vp_assert(vp_live() == live, "no leak");
  vp_cover("others");
}
template<typename D> void replaced() {
  const std::size_t live = vp_live();
  u16 s = vp_any<u16>(), other = vp_any<u16>();
  u8 x = vp_any<u8>(), y = vp_any<u8>();
  {
    D *d = new D;
    auto go = [&](u8 v) {
      byte_t in[2] = {1, v}, out[2];
      std::size_t n = 0, m = 0;
      (*d)(source{in, &n}, sink{out, &m, 2});
      vp_assert(n == 2 && m == 2, "dispatched");
      u16 r;
      wire<u16>::unpack<F>(out, r);
      return r;
    };
    tracked *f = new tracked{s};
    d->template replace<1>(*f);
    vp_assert(g_live == 2, "a dispatcher has its own copy");
    f->state = other;
    vp_assert(go(x) == (u16)(s + x), "changing the original is not visible");
    delete f;
    vp_assert(go(y) == (u16)(s + x + y), "state persists from one packet to the next");
    d->template replace<1>(tracked{other});
    vp_assert(g_live == 1, "the replaced callback is destroyed");
    vp_assert(go(x) == (u16)(other + x), "the new callback");
    unsigned how = vp_choose(4);
    if (how == 0) { d->template replace<1>(thrice); vp_assert(g_live == 0 && go(x) == (u16)(3 * x), "replaced by a function"); }
    else if (how == 1) { (*d)[1] = upd::action{}; vp_assert(g_live == 0, "reset"); }
    else if (how == 2) { upd::action kept = std::move((*d)[1]); vp_assert(g_live == 1 && call(kept, y) == (u16)(other + x + y), "taken out of a dispatcher"); }
    delete d;
  }
  vp_assert(g_live == 0 && vp_live() == live, "every instance is destroyed exactly once");
  vp_cover("replaced");
}
using R = ring<F, void(u16), u16(u8), u8()>;
VP_CASE(plain_replaced) { replaced<plain<R, ANY>>(); }
VP_CASE(single_replaced) { replaced<single<R, ANY>>(); }
VP_CASE(double_replaced) { replaced<dbl<R, ANY>>(); }
// hooks planned with a key
struct hook {
  tracked t; u16 *sum;
  void operator()(u16 v) { t.check(); t.state++; *sum = (u16)(*sum + v * t.state); }
};
VP_CASE(hooks) {
  const std::size_t live = vp_live();
  u16 v = vp_any<u16>(), w = vp_any<u16>(), sum = 0;
  {
    auto k = R::key<1>();
    hook *h = new hook{tracked{0}, &sum};
    upd::action a = k.with_hook(*h);
    upd::action b = k.with_hook(hook{tracked{10}, &sum});
    vp_assert(g_live == 3, "a hook is copied or moved in");
    h->t.state = 50;
    delete h;
    byte_t in[2];
    wire<u16>::pack<F>(in, v);
    const byte_t *p = in;
    a([&]() { return *p++; });
    vp_assert(sum == v, "the hook is called");
    wire<u16>::pack<F>(in, w);
    p = in;
    a([&]() { return *p++; });
    vp_assert(sum == (u16)(v + 2 * w), "the state of a hook persists");
    sum = 0;
    p = in;
    b([&]() { return *p++; });
    vp_assert(sum == (u16)(11 * w), "a temporary hook");
  }
  vp_assert(g_live == 0 && vp_live() == live, "every hook is destroyed exactly once");
  vp_cover("hooks");
}
// a callback whose copy fails
struct fails : tracked {
  bool bad;
  fails(u16 s, bool b) : tracked{s}, bad{b} {}
  fails(const fails &o) : tracked{o}, bad{o.bad} { if (bad) throw 5; }
};
VP_CASE(failing_copy) {
  const std::size_t live = vp_live();
  u16 s = vp_any<u16>();
  bool bad = vp_choose(2), got = false;
  {
    fails f{s, bad};
    plain<R, ANY> d;
    try {
      d.replace<1>(f);
      vp_assert(g_live == 2 && call(d[1], 3) == (u16)(s + 3), "copied");
    } catch (int e) {
      got = e == 5;
      vp_assert(g_live == 1, "a failed copy leaves no instance");
      journal j;
      rpc::start<F>(j);
      new_pool<F>();
      call(d[1], 3);
      vp_assert(j.calls == 1, "and the former action stays");
    }
  }
  vp_assert(got == bad && g_live == 0 && vp_live() == live, "no leak");
  vp_cover("failing copy");
}
#endif

#ifdef C21
// Nothing below may change the count of allocations, except where an owning action is constructed.
#define NOALLOC(WHAT, ...) do { std::size_t before = vp_allocs(); { __VA_ARGS__; } vp_assert(vp_allocs() == before, WHAT " never allocates"); } while (0)
template<typename FF> using small = ring<FF, void(), i16(u8), vec(tiny), std::array<i16, 2>(const u16 (&)[2])>;
template<typename FF> using wide_args = ring<FF, std::array<u8, 300>(std::array<u8, 300>), void()>;
template<typename R, typename D> void buffered_noalloc() {
  packet<R> p[2];
  any_packet(p[0]);
#ifdef PAIRS
  any_packet(p[1]);
#else
  fill(p[1], 3);
#endif
  byte_t out[64];
  std::size_t n = 0, m = 0;
  NOALLOC("a buffered dispatcher with weak references",
    D d;
    d(source{p[0].bytes, &n}, sink{out, &m, 64});
    d.template replace<0>(upd::unevaluated<void (*)(), &cb<1000, void()>::fn>{});
    d[0] = d[0];
    for (std::size_t i = 0; i < p[1].len; i++) d.put(p[1].bytes[i]);
    D e = d;
    while (e.is_loaded()) e.get();
    d.write_to(sink{out, &m, 64});
    d = e;
    d.read_from(source{p[0].bytes, &n});
    d = std::move(e));
  vp_cover("buffered");
}
template<typename R> void noalloc() {
  using FF = typename R::format;
  journal j;
  new_pool<FF>();
  rpc::start<FF>(j);
  packet<R> p;
  any_packet(p);
  byte_t out[64];
  std::size_t n = 0, m = 0;
  NOALLOC("a plain dispatcher with weak references",
    plain<R, WEAK> d;
    d(source{p.bytes, &n}, sink{out, &m, 64});
    n = 0;
    source src{p.bytes, &n};
    auto *a = d.get_action(src);
    if (a) (*a)(src, sink{out, &m, 64});
    plain<R, WEAK> e = d;
    d.template replace<0>(upd::unevaluated<void (*)(), &cb<1000, void()>::fn>{});
    e = d);
  buffered_noalloc<R, dbl<R, WEAK>>();
  buffered_noalloc<R, single<R, WEAK>>();
  // calling owning actions
  plain<R, ANY> d;
  single<R, ANY> s;
  NOALLOC("dispatching to an owning action", n = 0; d(source{p.bytes, &n}, sink{out, &m, 64}); n = 0; s(source{p.bytes, &n}, sink{out, &m, 64}));
  NOALLOC("moving an owning dispatcher", plain<R, ANY> e = std::move(d); d = std::move(e));
  vp_cover("dispatchers");
}
VP_CASE(le) { noalloc<small<fmt<LE, TC>>>(); }
VP_CASE(be) { noalloc<small<fmt<BE, SM>>>(); }
VP_CASE(large) {
  using R = wide_args<fmt<BE, TC>>;
  static packet<R, 400> p;
  fill(p, 0);
  static byte_t out[400];
  static journal j;
  rpc::start<F>(j);
  new_pool<F>();
  std::size_t n = 0, m = 0;
  NOALLOC("a dispatcher of large packets",
    dbl<R, WEAK> d;
    d(source{p.bytes, &n}, sink{out, &m, 400}));
  vp_assert(n == 301 && m == 300, "large");
  vp_cover("large");
}
VP_CASE(actions) {
  u16 s = vp_any<u16>();
  u8 x = vp_any<u8>();
  upd::action a{tracked{s}, E, S}, b{[s](u8 v) { return (u16)(s ^ v); }, E, S}, c{ctracked{s}, E, S};
  NOALLOC("calling an action", call(a, x); call(b, x); call(c, x); call(a, x); std::size_t n = 0; a(source{&x, &n}); a.input_size(); a.output_size());
  NOALLOC("moving an action", upd::action d{std::move(a)}; a = std::move(d); std::swap(a, b); call(a, x));
  using R = small<F>;
  vec v; wire<vec>::any<F>(v);
  byte_t bytes[7];
  wire<vec>::pack<F>(bytes, v);
  NOALLOC("a reference-only action", upd::no_storage_action d{upd::unevaluated<i16 (*)(u8), &cb<1, i16(u8)>::fn>{}, E, S}; auto e = d; journal j; rpc::start<F>(j); new_pool<F>(); call(e, x); d = e);
  auto hooked = R::key<2>().with_hook([](const vec &) {});
  NOALLOC("calling a hook", const byte_t *p = bytes; hooked([&]() { return *p++; }));
  vp_cover("actions");
}
VP_CASE(keys) {
  using R = small<fmt<LE, OC>>;
  u8 x = vp_any<u8>(); tiny t; wire<tiny>::any<F>(t); u16 a[2] = {vp_any<u16>(), vp_any<u16>()};
  byte_t out[16], in[8];
  vp_sym_bytes(in, 8);
  NOALLOC("a key",
    std::size_t m = 0;
    R::key<0>()().write_to(sink{out, &m, 16});
    auto k = R::key<1>();
    k(x).write_to(out);
    k.read_from(in);
    R::key<2>()(t) >> out;
    vec v = R::key<2>().read_from(in);
    (void)v;
    R::key<3>()(a).write_to(out);
    std::array<i16, 2> b = R::key<3>() << in;
    (void)b);
  vp_cover("keys");
}
VP_CASE(tuples) {
  u8 x = vp_any<u8>(); i32 y = any_representable<i32>(SM); bool z = vp_any<bool>(); u16 a[3] = {x, x, x};
  tiny t; wire<tiny>::any<F>(t);
  byte_t raw[16];
  vp_sym_bytes(raw, 16);
  NOALLOC("a tuple or view",
    upd::tuple<LE, TC, u8, i32, bool, u16[3], tiny> p{x, y, z, a, t};
    auto q = p;
    upd::tuple<BE, SM, u8, i32, bool, u16[3], tiny> r;
    r = std::move(p);
    r.set<0>(x);
    upd::set<3>(r, a);
    q = std::move(r);
    upd::tuple_view<byte_t *, BE, OB, u8, i32, bool> v{raw};
    v.set<1>(y);
    upd::get<1>(v);
    auto w = q.view<1, 2>();
    v.invoke([](u8, i32, bool) {});
    w.set<0>(1);
    q.invoke([](u8, i32, bool, const u16 (&)[3], const tiny &) {});
    auto m = upd::make_tuple(upd::little_endian, upd::twos_complement, x, y, a);
    auto n = upd::make_view<u8, i16>(upd::big_endian, upd::ones_complement, &raw[0]);
    (void)m; (void)n);
  vp_cover("tuples");
}
#endif
