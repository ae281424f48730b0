// C37: byte sources and sinks that throw part-way.
#include "stream.hpp"
#include "user.hpp"
template<typename F> using small = ring<F, i16(u8), void(u16), u32()>;
template<typename F> using mixed = ring<F, std::array<u8, 3>(bool), vec(vec, i16)>;

struct stop { u32 code; };
static u32 g_stop;
// gives or takes so many bytes, then throws
struct esource { const byte_t *p; std::size_t *n; std::size_t max; byte_t operator()() { if (*n == max) throw stop{g_stop}; ++*n; return *p++; } };
struct esink { byte_t *p; std::size_t *n; std::size_t max; void operator()(byte_t b) { if (*n == max) throw stop{g_stop}; p[(*n)++] = b; } };
template<typename Go> bool stopped(Go &&go) {
  try { go(); } catch (stop &s) { vp_assert(s.code == g_stop, "the exception of a source or sink arrives unchanged"); return true; }
  return false;
}
// The source of a packet gives up after any number of bytes; what it gave is not lost, and the rest may come in any way.
template<typename R, typename D> void source_throws() {
  using F = typename R::format;
  std::size_t live = vp_live();
  {
    session<R> s;
    journal j;
    new_pool<F>();
    rpc::start<F>(j);
    g_stop = vp_any<u32>();
    D *d = new D;
    packet<R> p;
    any_packet(p);
    std::size_t n = 0, m = 0, given = vp_choose(p.len);
    for (std::size_t i = 0; i < given; i++) s.put(p.bytes[i]);
    byte_t out[40];
    esource src{p.bytes, &n, given};
    bool thrown;
    switch (vp_choose(3)) {
    case 0: thrown = stopped([&]() { d->read_from(src); }); break;
    case 1: thrown = stopped([&]() { *d << src; }); break;
    default: thrown = stopped([&]() { (*d)(src, sink{out, &m, 40}); });
    }
    vp_assert(thrown && n == given && m == 0 && j == s.log && !d->is_loaded(), "a source that throws ends the operation: no call is made with missing bytes, and nothing is written");
    if (vp_choose(2)) for (std::size_t i = given; i < p.len; i++) put<R>(s, *d, p.bytes[i]);
    else read_rest<R>(s, *d, p, given, 0);
    drain(s, *d);
    packet<R> q;
    fill(q, R::n - 1);
    put_all<R>(s, *d, q);
    drain(s, *d);
    vp_assert(j == s.log, "the calls");
    delete d;
  }
  vp_assert(vp_live() == live, "no leak");
  vp_cover("source");
}
// The sink of a response gives up after any number of bytes; the others come out once, in order (but possibly the one refused).
template<typename R, typename D> void sink_throws() {
  using F = typename R::format;
  std::size_t live = vp_live();
  {
    session<R> s;
    journal j;
    new_pool<F>();
    rpc::start<F>(j);
    g_stop = vp_any<u32>();
    D *d = new D;
    packet<R> p;
    known_packet(p);
    unsigned how = vp_choose(3);
    byte_t want[40], out[40], *rest = new byte_t[40];
    std::size_t e = 0, n = 0, m = 0;
    for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
    while (s.loaded()) want[e++] = s.get();
    std::size_t taken = e ? vp_choose(e) : 0;
    bool thrown;
    if (how < 2) for (std::size_t i = 0; i < p.len; i++) d->put(p.bytes[i]);
    switch (how) {
    case 0: thrown = stopped([&]() { d->write_to(esink{out, &m, taken}); }); break;
    case 1: thrown = stopped([&]() { *d >> esink{out, &m, taken}; }); break;
    default: thrown = stopped([&]() { (*d)(source{p.bytes, &n}, esink{out, &m, taken}); });
    }
    vp_assert(thrown == (e != 0) && m == taken && same(out, want, taken) && j == s.log, "a sink that throws ends the operation");
    n = 0;
    d->write_to(sink{rest, &n, 40});
    vp_assert(!d->is_loaded() && (n == e - taken || n + 1 == e - taken) && same(rest, want + (e - n), n), "the rest of a response comes out once and in order after its sink threw");
    delete[] rest;
    packet<R> q;
    fill(q, R::n - 1);
    put_all<R>(s, *d, q);
    drain(s, *d);
    vp_assert(j == s.log, "the calls");
    delete d;
  }
  vp_assert(vp_live() == live, "no leak");
  vp_cover("sink");
}
// Plain dispatchers and actions
template<typename R, typename D> void plain_throws() {
  using F = typename R::format;
  std::size_t live = vp_live();
  {
    session<R> s;
    journal j;
    new_pool<F>();
    rpc::start<F>(j);
    g_stop = vp_any<u32>();
    D d;
    packet<R> p;
    known_packet(p);
    byte_t want[40], out[40];
    std::size_t e = 0, n = 0, m = 0;
    bool atsource = vp_choose(2), byaction = vp_choose(2);
    std::size_t skip = byaction ? R::isize : 0;
    const byte_t *bytes = p.bytes + skip;
    if (atsource) {
      if (byaction && R::in(p.k) == 0) return;
      std::size_t given = vp_choose(p.len - skip);
      bool thrown = stopped([&]() {
        if (byaction) d[(typename R::index_t)p.k](esource{bytes, &n, given}, sink{out, &m, 40}); else d(esource{bytes, &n, given}, sink{out, &m, 40});
      });
      vp_assert(thrown && n == given && m == 0 && j == s.log, "no call is made with missing bytes");
    } else {
      for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
      while (s.loaded()) want[e++] = s.get();
      if (!e) return;
      std::size_t taken = vp_choose(e);
      bool thrown = stopped([&]() {
        if (byaction) d[(typename R::index_t)p.k](source{bytes, &n}, esink{out, &m, taken}); else d(source{bytes, &n}, esink{out, &m, taken});
      });
      vp_assert(thrown && m == taken && same(out, want, m) && j == s.log, "a call is made once, whatever happens to its response");
    }
    // and again, undisturbed
    e = n = m = 0;
    for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
    while (s.loaded()) want[e++] = s.get();
    d(source{p.bytes, &n}, sink{out, &m, 40});
    vp_assert(n == p.len && m == e && same(out, want, e) && j == s.log, "the next request is answered as if nothing had happened");
  }
  vp_assert(vp_live() == live, "no leak");
  vp_cover("plain");
}
// Keys: requests and responses cut short
template<typename R> void key_throws() {
  using F = typename R::format;
  using C = typename R::template callback<1>;
  std::size_t live = vp_live();
  auto k = R::template key<1>();
  vec v; wire<vec>::any<F>(v);
  i16 x = any_representable<i16>(F::s);
  byte_t want[10], out[10];
  R::put_index(want, 1);
  pack_all<F>(want + 1, v, x);
  g_stop = vp_any<u32>();
  auto p = k(v, x);
  std::size_t n = 0, m = 0, taken = vp_choose(10);
  vp_assert(stopped([&]() { p.write_to(esink{out, &m, taken}); }) && m == taken && same(out, want, m), "a sink that throws ends the packet");
  m = 0;
  p.write_to(sink{out, &m, 10});
  vp_assert(m == 10 && same(out, want, 10), "a packet can be written again after its sink threw");
  byte_t response[7];
  vec r;
  vp_sym_bytes(response, 7);
  wire<vec>::unpack<F>(response, r);
  std::size_t given = vp_choose(7);
  unsigned calls = 0;
  auto hook = k.with_hook([&](vec g) { calls++; vp_assert(wire<vec>::equal(g, r), "the hook gets the response"); });
  vp_assert(stopped([&]() { k.read_from(esource{response, &n, given}); }) && n == given, "a source that throws ends the response");
  n = m = 0;
  vp_assert(stopped([&]() { hook(esource{response, &n, given}, sink{out, &m, 10}); }) && n == given && calls == 0, "a hook is not called with a response cut short");
  n = 0;
  vp_assert(wire<vec>::equal(k.read_from(source{response, &n}), r) && n == 7, "a response is read after another one was cut short");
  n = 0;
  hook(source{response, &n}, sink{out, &m, 10});
  vp_assert(calls == 1 && m == 0 && n == 7, "a hook is called once after a response was cut short");
  (void)live;
  vp_cover("key");
}
using LT = fmt<LE, TC>; using BS = fmt<BE, SM>; using LO = fmt<LE, OC>; using BB = fmt<BE, OB>;
#define BOTH(N, R_, D_) VP_CASE(source_##N) { using R = R_; source_throws<R, D_>(); } VP_CASE(sink_##N) { using R = R_; sink_throws<R, D_>(); }
#define SW single<R, WEAK>
#define SA single<R, ANY>
#define DW dbl<R, WEAK>
#define DA dbl<R, ANY>
#define CW custom<plain<R, WEAK>, 10, 7>
BOTH(sw, small<LT>, SW)
BOTH(sa, mixed<BB>, SA)
BOTH(dw, mixed<LO>, DW)
BOTH(da, small<BS>, DA)
BOTH(cw, mixed<LT>, CW)
VP_CASE(plain_any) { using R = small<BB>; plain_throws<R, plain<R, ANY>>(); }
VP_CASE(plain_weak) { using R = mixed<BS>; plain_throws<R, plain<R, WEAK>>(); }
VP_CASE(plain_any2) { using R = mixed<LT>; plain_throws<R, plain<R, ANY>>(); }
VP_CASE(key_LT) { key_throws<mixed<LT>>(); }
VP_CASE(key_BS) { key_throws<mixed<BS>>(); }
VP_CASE(key_LO) { key_throws<mixed<LO>>(); }
VP_CASE(key_BB) { key_throws<mixed<BB>>(); }
