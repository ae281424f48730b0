// C27: copying or moving dispatchers and actions at any moment of a session.
#include "stream.hpp"
#include "user.hpp"
#include <memory>

template<typename F> using small = ring<F, void(), i16(u8), u8(i16, bool), void(u16)>;
template<typename F> using mixed = ring<F, ll(bool), void(i8, u32), u8(), std::array<i16, 2>(std::array<u8, 3>, i8)>;
template<typename F> using exts = ring<F, vec(tiny), void(cached), outer(u8)>;

enum how { COPY, COPY_ASSIGN, COPY_ASSIGN_BUSY, MOVE, MOVE_ASSIGN, MOVE_ASSIGN_BUSY, GROW, SWAP, HOWS };
constexpr bool copies(unsigned h) { return h <= COPY_ASSIGN_BUSY; }

template<typename D> D *copied(const D &d, unsigned h, D *busy) {
  switch (h) {
  case COPY: return new D{d};
  case COPY_ASSIGN: { D *e = new D; *e = d; return e; }
  default: *busy = d; return busy;
  }
}
template<typename D> D *moved(D *d, unsigned h, D *busy) { // d is gone afterwards
  D *e;
  switch (h) {
  case MOVE: e = new D{std::move(*d)}; break;
  case MOVE_ASSIGN: e = new D; *e = std::move(*d); break;
  case MOVE_ASSIGN_BUSY: e = busy; *e = std::move(*d); break;
  case GROW: {
    std::vector<D> v;
    v.push_back(std::move(*d));
    v.emplace_back();            // moves the first one again
    e = new D{std::move(v.front())};
    break;
  }
  default: e = new D; std::swap(*d, *e);
  }
  delete d;
  return e;
}
// One line of packets with its model and its journal
template<typename R, typename D> struct line {
  using F = typename R::format;
  session<R> s;
  journal j;
  D *d = nullptr;
  packet<R> p;
  std::size_t at = 0;
  bool more() const { return at < p.len; }
  void step() { start<F>(j); put<R>(s, *d, p.bytes[at++]); }
  void finish() {
    start<F>(j);
    drain(s, *d);
    vp_assert(j == s.log, "the calls of each dispatcher are those of its own packets");
  }
};
template<typename R, typename D> void busy_one(D &d) {
  using F = typename R::format;
  journal other;
  start<F>(other);
  byte_t b[R::isize];
  R::put_index(b, R::n - 1);
  if (vp_choose(2)) {          // with a pending response of its own, or in the middle of a packet
    R::put_index(b, 1);
    for (byte_t x : b) d.put(x);
    for (std::size_t i = 0; i < R::in(1); i++) d.put((byte_t)(0x40 + i));
  }
  else for (byte_t x : b) d.put(x);
}
template<typename R, typename D> void transplant(unsigned h, bool separate) {
  if (h == COPY_ASSIGN_BUSY || h == MOVE_ASSIGN_BUSY) vp_cover("busy");
  using F = typename R::format;
  new_pool<F>();
  line<R, D> a;
  a.d = new D;
  start<F>(a.j);
  // a response of which any number of bytes is drained
  #ifdef MORE
  const std::size_t k = vp_choose(R::n + 1);
#else
  const std::size_t kinds[] = {R::n, 1, 2}, k = kinds[vp_choose(3)];   // unknown, and two which return something
#endif
  if (k < R::n) {
    packet<R> p;
    fill(p, k);
    put_all<R>(a.s, *a.d, p);
    const std::size_t o = R::out(k), most[] = {0, 1, o ? o - 1 : 0, o};
    std::size_t n = o < 4 ? vp_choose(o + 1) : most[vp_choose(4)];
    for (std::size_t i = 0; i < n; i++) get1(a.s, *a.d);
  }
  // a packet of which any number of bytes was received
  bool pending = a.s.loaded();
  fill(a.p, vp_choose(R::n + 1));
  const std::size_t l = a.p.len, some[] = {0, 1, R::isize + 1, l - 1};
  std::size_t cut = !separate && pending ? 0 : l <= 5 ? vp_choose(l) : some[vp_choose(4)];
  while (a.at < cut) a.step();
  D *busy = nullptr;
  if (h == COPY_ASSIGN_BUSY || h == MOVE_ASSIGN_BUSY) { busy = new D; busy_one<R>(*busy); }
  after(a, h, busy, separate, std::integral_constant<bool, std::is_copy_constructible<D>::value>{});
  delete a.d;
  vp_cover("moved");
}
template<typename R, typename D> void continue_one(line<R, D> &a, bool separate) {
  if (!separate) while (a.s.loaded()) get1(a.s, *a.d);
  while (a.more()) {
    a.step();
    if (separate && a.s.loaded() && a.more()) get1(a.s, *a.d);
  }
  a.finish();
  packet<R> q;   // and another packet
  fill(q, 1);
  a.p = q;
  a.at = 0;
  while (a.more()) a.step();
  a.finish();
}
template<typename R, typename D> void after(line<R, D> &a, unsigned h, D *busy, bool separate, std::true_type) {
  if (!copies(h)) return after(a, h, busy, separate, std::false_type{});
  line<R, D> b = a;
  b.d = copied(*a.d, h, busy);
  // the two go on with different bytes, in turn
  if (b.at == 0) fill(b.p, (a.p.k + 1) % (R::n + 1));
  else if (b.p.known()) for (std::size_t i = b.at > R::isize ? b.at : R::isize; i < b.p.len; i++) b.p.bytes[i] = (byte_t)(b.p.bytes[i] ^ (0x5a + i));
  switch (vp_choose(3)) {
  case 0: // one byte each
    if (!separate) { while (a.s.loaded()) get1(a.s, *a.d); while (b.s.loaded()) get1(b.s, *b.d); }
    while (a.more() || b.more()) {
      if (a.more()) { a.step(); if (separate && a.s.loaded()) get1(a.s, *a.d); }
      if (b.more()) b.step();
    }
    a.finish();
    b.finish();
    break;
  case 1: // the original first, and it is gone before the copy goes on
    continue_one(a, separate);
    delete a.d;
    a.d = new D;
    a.s = session<R>{};
    a.j = journal{};
    continue_one(b, separate);
    break;
  default: // the copy first
    continue_one(b, separate);
    continue_one(a, separate);
  }
  delete b.d;
  vp_cover("copied");
}
template<typename R, typename D> void after(line<R, D> &a, unsigned h, D *busy, bool separate, std::false_type) {
  a.d = moved(a.d, h, busy);
  continue_one(a, separate);
}
#ifndef HOW
#define HOW 0
#endif
template<typename R, upd::action_features P> void all_of(unsigned h) {
  if (vp_choose(2)) transplant<R, single<R, P>>(h, false); else transplant<R, dbl<R, P>>(h, true);
}
#define EACH(NAME, RING, P)                                                                                            \
  VP_CASE(NAME##_move) { all_of<RING, P>(MOVE); } VP_CASE(NAME##_massign) { all_of<RING, P>(MOVE_ASSIGN); }            \
  VP_CASE(NAME##_mbusy) { all_of<RING, P>(MOVE_ASSIGN_BUSY); } VP_CASE(NAME##_grow) { all_of<RING, P>(GROW); }         \
  VP_CASE(NAME##_swap) { all_of<RING, P>(SWAP); }
#define EACHCOPY(NAME, RING)                                                                                           \
  VP_CASE(NAME##_copy) { all_of<RING, WEAK>(COPY); } VP_CASE(NAME##_cassign) { all_of<RING, WEAK>(COPY_ASSIGN); }       \
  VP_CASE(NAME##_cbusy) { all_of<RING, WEAK>(COPY_ASSIGN_BUSY); }
typedef small<fmt<BE, OB>> RS; typedef mixed<fmt<LE, SM>> RM; typedef exts<fmt<BE, TC>> RX;
EACH(smallany, RS, ANY) EACHCOPY(small, RS) EACH(smallweak, RS, WEAK)
#ifdef MORE
EACHCOPY(exts, RX) EACHCOPY(mixed, RM) EACH(mixedany, RM, ANY) EACH(mixedweak, RM, WEAK) EACH(extsany, RX, ANY) EACH(extsweak, RX, WEAK)
#endif
static_assert(std::is_copy_constructible<single<RS, WEAK>>::value && std::is_copy_assignable<dbl<RS, WEAK>>::value && std::is_copy_constructible<plain<RS, WEAK>>::value, "dispatchers of references can be copied");
static_assert(std::is_move_constructible<single<RS, ANY>>::value && std::is_move_assignable<dbl<RS, ANY>>::value && !std::is_copy_constructible<plain<RS, ANY>>::value, "dispatchers which own their callbacks can be moved only");

// ---- actions with state, alone and inside dispatchers
struct counter {
  std::unique_ptr<u16> state;
  u16 step;
  i16 operator()(u8 x) { *state = (u16)(*state ^ step ^ x); return (i16)*state; }
};
struct adder { u16 state; i16 operator()(u8 x) { state = (u16)(state ^ x); return (i16)state; } };
template<typename F> upd::action act(u16 init, u16 step) { return upd::action{counter{std::unique_ptr<u16>{new u16{init}}, step}, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}}; }
template<typename F, typename A> void expect(A &&a, u8 x, u16 want) {
  vp_assume(representable((i16)want, F::s));
  byte_t out[2];
  std::size_t n = 0, m = 0;
  a(source{&x, &n}, sink{out, &m, 2});
  vp_assert(n == 1 && m == 2 && dec<F, i16>(out) == (i16)want, "an action keeps the state of its callback when moved");
  vp_log((u16)want);
}
template<typename F> void actions() {
  std::size_t live = vp_live();
  {
    u16 init = vp_any<u16>(), step = vp_any<u16>();
    u8 x = vp_any<u8>(), y = vp_any<u8>(), z = vp_any<u8>();
    upd::action a = act<F>(init, step);
    u16 w = (u16)(init ^ step ^ x);
    expect<F>(a, x, w);
    std::unique_ptr<upd::action> p{new upd::action{std::move(a)}};
    w = (u16)(w ^ step ^ y);
    vp_assert(p->input_size() == 1 && p->output_size() == 2, "the announced sizes move with the action");
    expect<F>(*p, y, w);
    upd::action b = act<F>(7, 9), c;
    b = std::move(*p);
    p.reset();
    w = (u16)(w ^ step ^ z);
    expect<F>(b, z, w);
    std::swap(b, c);
    expect<F>(c, z, w = (u16)(w ^ step ^ z));
    // within a dispatcher, itself moved
    using R = small<F>;
    plain<R, ANY> d;
    d[1] = std::move(c);
    std::unique_ptr<plain<R, ANY>> d2{new plain<R, ANY>{std::move(d)}};
    expect<F>((*d2)[1], x, w = (u16)(w ^ step ^ x));
    plain<R, ANY> d3;
    d3.template replace<1>(adder{3});
    d3 = std::move(*d2);
    d2.reset();
    byte_t req[2] = {}, out[2];
    R::put_index(req, 1);
    req[1] = y;
    w = (u16)(w ^ step ^ y);
    vp_assume(representable((i16)w, F::s));
    d3(req, out);
    vp_assert(dec<F, i16>(out) == (i16)w, "a moved dispatcher keeps its actions");
    journal j;
    start<F>(j);
    R::put_index(req, 0);
    d3(req, out);
    journal want;
    R::expect(0, req, want);
    vp_assert(j == want, "and the others");
    // reference-only actions can be copied
    plain<R, WEAK> e;
    auto r = e[3];
    e[3] = plain<R, WEAK>{}[3];
    vp_assert(r.input_size() == 2 && r.output_size() == 0 && e[3].input_size() == 2, "copies of reference-only actions");
    journal k; want = journal{};
    start<F>(k);
    byte_t in[2]; vp_sym_bytes(in, 2);
    r(in, out);
    R::expect(3, in, want);
    vp_assert(k == want, "a copied action calls its callback");
  }
  vp_assert(vp_live() == live, "nothing is leaked");
  vp_cover("actions");
}
VP_CASE(actions_1) { actions<fmt<BE, OB>>(); actions<fmt<LE, TC>>(); }
VP_CASE(actions_2) { actions<fmt<LE, OB>>(); actions<fmt<BE, TC>>(); }
// a stateful action in a buffered dispatcher moved in the middle of a packet
template<typename F, template<typename, upd::action_features> class D> void stateful() {
  using R = small<F>;
  new_pool<F>();
  std::size_t live = vp_live();
  {
    u16 init = vp_any<u16>(), step = vp_any<u16>(), w = init;
    std::unique_ptr<D<R, ANY>> d{new D<R, ANY>};
    (*d)[1] = act<F>(init, step);
    byte_t idx[R::isize]; R::put_index(idx, 1);
    for (int i = 0; i < 3; i++) {
      u8 x = vp_any<u8>();
      unsigned at = vp_choose(3);
      auto hop = [&]() { std::unique_ptr<D<R, ANY>> e{new D<R, ANY>{std::move(*d)}}; d = std::move(e); };
      if (at == 0) hop();
      for (byte_t b : idx) vp_assert(is(d->put(b), LOADING), "loading");
      if (at == 1) hop();
      w = (u16)(w ^ step ^ x);
      vp_assume(representable((i16)w, F::s));
      vp_assert(is(d->put(x), RESOLVED), "resolved");
      byte_t out[2];
      out[0] = d->get();
      if (at == 2) hop();
      out[1] = d->get();
      vp_assert(!d->is_loaded() && dec<F, i16>(out) == (i16)w, "the state of the callback and the response move with the dispatcher");
    }
  }
  vp_assert(vp_live() == live, "nothing is leaked");
  vp_cover("stateful");
}
VP_CASE(stateful_1) { stateful<fmt<BE, TC>, single>(); }
VP_CASE(stateful_2) { stateful<fmt<LE, OB>, dbl>(); }
