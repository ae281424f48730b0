// C36: instances are independent of one another, even when used inside the callbacks of one another.
#include "user.hpp"
#include "stream.hpp"
#include <functional>
// ---- interleaved use of two buffered dispatchers of the same type: any schedule of their bytes
template<typename F> using small = ring<F, i16(u8), void(u16), vec()>;
template<typename F> using mixed = ring<F, std::array<u8, 3>(bool), i32(i16, u8)>;
template<typename R, typename D1, typename D2> void interleaved(std::size_t pk, std::size_t qk) {
  using F = typename R::format;
  D1 *a = new D1;
  D2 *b = new D2;
  session<R> s, t;
  journal j, l;
  l.calls = t.log.calls = 3; // so that its callbacks return other values
  new_pool<F>();
  packet<R> p, q;
  fill(p, pk);
  fill(q, qk);
  std::size_t i = 0, k = 0;
  while (i < p.len || k < q.len) {
    bool first = k == q.len || (i < p.len && vp_choose(2));
    rpc::start<F>(first ? j : l);
    if (first) put<R>(s, *a, p.bytes[i++]); else put<R>(t, *b, q.bytes[k++]);
  }
  vp_assert(j == s.log && l == t.log, "each dispatcher makes its own calls");
  bool turn = false, few = s.bottom + t.bottom < 6;
  while (s.loaded() || t.loaded()) {
    turn = few ? vp_choose(2) : !turn;
    if (!t.loaded() || (s.loaded() && turn)) get1(s, *a); else get1(t, *b);
  }
  // one more packet through the second once the first is gone
  delete a;
  rpc::start<F>(l);
  packet<R> r;
  fill(r, R::n - 1);
  put_all<R>(t, *b, r);
  drain(t, *b);
  vp_assert(l == t.log, "a dispatcher outlives another one");
  delete b;
  vp_cover("interleaved");
}
using LT = fmt<LE, TC>; using BS = fmt<BE, SM>; using LO = fmt<LE, OC>; using BB = fmt<BE, OB>;
#define INTER(N, RING, D1, D2) \
  VP_CASE(inter_##N##_0) { using R = RING; interleaved<R, D1, D2>(0, 1); } VP_CASE(inter_##N##_1) { using R = RING; interleaved<R, D1, D2>(1, 0); } \
  VP_CASE(inter_##N##_2) { using R = RING; interleaved<R, D1, D2>(1, 1); } VP_CASE(inter_##N##_3) { using R = RING; interleaved<R, D1, D2>(0, 0); } \
  VP_CASE(inter_##N##_4) { using R = RING; interleaved<R, D1, D2>(0, R::n); } VP_CASE(inter_##N##_5) { using R = RING; interleaved<R, D1, D2>(R::n, 1); }
#define CUST custom<plain<R, WEAK>, 3, 7>
#define SW single<R, WEAK>
#define SA single<R, ANY>
#define DW dbl<R, WEAK>
#define DA dbl<R, ANY>
INTER(single, small<LT>, SW, SW)
INTER(double, small<BS>, DA, DA)
INTER(both, small<LO>, SA, DA)
INTER(policies, mixed<BB>, DW, DA)
INTER(custom, small<BB>, CUST, CUST)

// ---- a callback which makes the same kind of request, through whatever is installed, as deep as it is told
static std::function<u32(u8, u32)> *g_nested;
static unsigned g_calls;
static u32 g_k[4];
static u32 recurse(u8 depth, u32 x) {
  g_calls++;
  u32 below = depth ? (*g_nested)((u8)(depth - 1), x ^ g_k[depth & 3]) : 0x1000000;
  return (x ^ depth) + (below >> 3 | below << 29); // x, depth: must still be those of this call
}
static u32 local(unsigned depth, u32 x) {
  u32 below = depth ? local(depth - 1, x ^ g_k[depth & 3]) : 0x1000000;
  return (x ^ depth) + (below >> 3 | below << 29);
}
static void other(u16) {}
template<typename F> using rring = upd::keyring<F::e, F::s, upd::unevaluated<void (*)(u16), &other>, upd::unevaluated<u32 (*)(u8, u32), &recurse>>;
template<typename F> using rkey = typename rring<F>::template key_t<upd::unevaluated<u32 (*)(u8, u32), &recurse>>;
template<typename F, typename Call> void nested(Call &&call) {
  for (auto &k : g_k) k = vp_any<u32>();
  std::function<u32(u8, u32)> f = [&](u8 depth, u32 x) {
    byte_t req[6], res[4];
    std::size_t n = 0, m = 0;
    rkey<F>{}(depth, x).write_to(sink{req, &n, 6});
    unsigned before = g_calls;
    call(req, sink{res, &m, 4}, depth);
    vp_assert(n == 6 && m == 4 && g_calls == before + depth + 1, "a nested request is answered once");
    const byte_t *it = res;
    return rkey<F>{}.read_from(it);
  };
  g_nested = &f;
  for (unsigned depth = 0; depth < 4; depth++) {
    u32 x = vp_any<u32>();
    g_calls = 0;
    vp_assert(f((u8)depth, x) == local(depth, x) && g_calls == depth + 1, "a request made inside a callback of the same dispatcher or action is answered as a local call would be");
  }
  vp_cover("nested");
}
template<typename F, upd::action_features P> void nested_plain() {
  upd::dispatcher<rring<F>, P> d;
  unsigned how = vp_choose(3);
  nested<F>([&](const byte_t *req, sink out, unsigned) {
    std::size_t n = 0;
    source src{req, &n};
    if (how == 0) d(src, out);
    else if (how == 1) (*d.get_action(src))(source{req + 1, &n}, out);
    else d[1](source{req + 1, &n}, out);
    vp_assert(n == (how == 0 ? 6 : how == 1 ? 6 : 5), "a nested request is read completely");
  });
}
VP_CASE(plain_any) { nested_plain<LT, ANY>(); }
VP_CASE(plain_weak) { nested_plain<BS, WEAK>(); }
VP_CASE(plain_any2) { nested_plain<BB, ANY>(); }
VP_CASE(plain_weak2) { nested_plain<LO, WEAK>(); }
// a pool of buffered dispatchers of one type, one per depth
template<typename F, typename D> void nested_buffered() {
  D *pool = new D[4];
  bool bytewise = vp_choose(2);
  nested<F>([&](const byte_t *req, sink out, unsigned depth) {
    D &d = pool[depth];
    if (bytewise) {
      for (unsigned i = 0; i < 6; i++) {
        auto st = d.put(req[i]);
        vp_assert(is(st, i < 5 ? LOADING : RESOLVED), "a nested request is resolved on its last byte");
      }
      while (d.is_loaded()) out(d.get());
    } else d(req, out);
  });
  delete[] pool;
}
VP_CASE(buffered_single) { nested_buffered<LT, upd::single_buffered_dispatcher<upd::dispatcher<rring<LT>, WEAK>>>(); }
VP_CASE(buffered_single2) { nested_buffered<BB, upd::single_buffered_dispatcher<upd::dispatcher<rring<BB>, ANY>>>(); }
VP_CASE(buffered_double) { nested_buffered<BS, upd::double_buffered_dispatcher<upd::dispatcher<rring<BS>, ANY>>>(); }
VP_CASE(buffered_double2) { nested_buffered<LO, upd::double_buffered_dispatcher<upd::dispatcher<rring<LO>, WEAK>>>(); }
// the callback of an action which calls the action itself, and hooks which read other responses
template<typename F> void nested_actions() {
  upd::action a{&recurse, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
  upd::no_storage_action b{upd::unevaluated<u32 (*)(u8, u32), &recurse>{}, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
  unsigned how = vp_choose(3);
  nested<F>([&](const byte_t *req, sink out, unsigned depth) {
    std::size_t n = 0;
    if (how == 0 || (how == 2 && depth % 2)) a(source{req + 1, &n}, out); else b(source{req + 1, &n}, out);
    vp_assert(n == 5, "a nested action reads its arguments");
  });
}
VP_CASE(actions) { nested_actions<LT>(); }
VP_CASE(actions2) { nested_actions<BS>(); }
// a tuple invoked inside the callback it invokes; the outer call's values are those of the outer tuple
template<typename F> void nested_tuples() {
  using T = upd::tuple<F::e, F::s, u8, i32, std::array<i16, 2>>;
  using A = std::array<i16, 2>;
  values<u8, i32, A> v, w;
  v.template any<F>();
  w.template any<F>();
  T a{pick<0>::get(v), pick<1>::get(v), pick<2>::get(v)}, b{pick<0>::get(w), pick<1>::get(w), pick<2>::get(w)};
  auto inner = [&](const u8 &x, const i32 &y, const A &z) { vp_assert(eq(x, pick<0>::get(w)) && eq(y, pick<1>::get(w)) && eq(z, pick<2>::get(w)), "the inner values"); a.template set<1>(pick<1>::get(w)); };
  a.invoke([&](const u8 &x, const i32 &y, const A &z) {
    b.invoke(inner);
    vp_assert(eq(x, pick<0>::get(v)) && eq(y, pick<1>::get(v)) && eq(z, pick<2>::get(v)), "the values given to a callback stay the same while others are invoked and the tuple changes");
  });
  vp_assert(eq(a.template get<1>(), pick<1>::get(w)), "a tuple can be changed by the callback it invokes");
  vp_cover("tuples");
}
VP_CASE(tuples) { nested_tuples<LT>(); nested_tuples<BS>(); nested_tuples<LO>(); nested_tuples<BB>(); }
// ---- sources and sinks which make requests of the same kind themselves, between any two bytes
template<typename F, typename Inner> struct busy {
  struct source { const byte_t *p; std::size_t *n; Inner *f; byte_t operator()() { (*f)(); byte_t b = p[(*n)++]; (*f)(); return b; } };
  struct sink { byte_t *p; std::size_t *n, max; Inner *f; void operator()(byte_t b) { (*f)(); vp_assert(*n < max, "no more bytes than the answer"); p[(*n)++] = b; (*f)(); } };
};
// outer(source, sink): one request (6 bytes, 1 of which is the index) and its answer; inner: the same operation on plain memory
template<typename F, typename Outer, typename Inner> void busy_io(Outer &&outer, Inner &&op, bool index = true) {
  unsigned k = index ? 0 : 1;
  u32 y = vp_any<u32>(), x = vp_any<u32>();
  std::size_t times = 0;
  auto inner = [&]() {
    byte_t req[6], res[4];
    std::size_t n = 0, m = 0;
    u32 z = y ^ (u32)(times++ << 12);
    rkey<F>{}(0, z).write_to(sink{req, &n, 6});
    n = 0;
    op(source{req + k, &n}, sink{res, &m, 4});
    const byte_t *it = res;
    vp_assert(n == 6 - k && m == 4 && rkey<F>{}.read_from(it) == local(0, z), "a request made by a source or sink is answered as a local call would be");
  };
  using I = decltype(inner);
  byte_t req[6], res[4];
  std::size_t n = 0, m = 0;
  rkey<F>{}(0, x).write_to(sink{req, &n, 6});
  n = 0;
  outer(typename busy<F, I>::source{req + k, &n, &inner}, typename busy<F, I>::sink{res, &m, 4, &inner});
  const byte_t *it = res;
  vp_assert(n == 6 - k && m == 4 && rkey<F>{}.read_from(it) == local(0, x), "a request is not disturbed by those its source and sink make");
  vp_assert(times == 2 * (n + m), "the source and the sink are called once per byte");
  vp_cover("busy");
}
template<typename F, upd::action_features P> void busy_plain() {
  upd::dispatcher<rring<F>, P> d, o;
  upd::dispatcher<rring<F>, P> &e = vp_choose(2) ? d : o;
  if (vp_choose(2)) busy_io<F>([&](auto &&s, auto &&t) { d(s, t); }, [&](source s, sink t) { e(s, t); });
  else busy_io<F>([&](auto &&s, auto &&t) { (*d.get_action(s))(s, t); }, [&](source s, sink t) { (*e.get_action(s))(s, t); });
}
VP_CASE(busy_any) { busy_plain<LT, ANY>(); }
VP_CASE(busy_weak) { busy_plain<BS, WEAK>(); }
VP_CASE(busy_any2) { busy_plain<BB, ANY>(); }
VP_CASE(busy_weak2) { busy_plain<LO, WEAK>(); }
template<typename F, typename D> void busy_buffered() {
  D d, o;
  if (vp_choose(2)) busy_io<F>([&](auto &&s, auto &&t) { d(s, t); }, [&](source s, sink t) { o(s, t); });
  else busy_io<F>([&](auto &&s, auto &&t) { d << s; d >> t; }, [&](source s, sink t) { while (is(o.put(s()), LOADING)) {} while (o.is_loaded()) t(o.get()); });
}
VP_CASE(busy_single) { busy_buffered<LT, upd::single_buffered_dispatcher<upd::dispatcher<rring<LT>, WEAK>>>(); }
VP_CASE(busy_double) { busy_buffered<BS, upd::double_buffered_dispatcher<upd::dispatcher<rring<BS>, ANY>>>(); }
template<typename F> void busy_actions() {
  upd::action a{&recurse, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
  upd::no_storage_action b{upd::unevaluated<u32 (*)(u8, u32), &recurse>{}, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
  unsigned how = vp_choose(4);
  busy_io<F>([&](auto &&s, auto &&t) { if (how & 1) a(s, t); else b(s, t); }, [&](source s, sink t) { if (how & 2) a(s, t); else b(s, t); }, false);
}
VP_CASE(busy_actions) { busy_actions<LT>(); }
VP_CASE(busy_actions2) { busy_actions<BS>(); }
// callbacks with no result, hooks, responses and packets
static u16 g_got, g_in; static unsigned g_others;
static void note16(u16 x) { g_others++; if (g_others % 2) g_in = x; else g_got = x; }
static void hear32(u32 x) { g_others++; g_got = (u16)x; g_in = (u16)(x >> 16); }
template<typename F> void busy_rest() {
  upd::endianess_h<F::e> e; upd::signed_mode_h<F::s> s;
  using K = rkey<F>;
  K key;
  u32 x = vp_any<u32>(), y = vp_any<u32>();
  byte_t bx[4], by[4];
  enc<F>(bx, x); enc<F>(by, y);
  // reading a response while the source reads others with the same key
  std::size_t n = 0, c = 0;
  u32 got = key.read_from([&]() { u32 in = key.read_from((const byte_t *)by); vp_assert(in == y, "a response read by the source of another"); c++; return bx[n++]; });
  vp_assert(got == x && c == 4, "a response is not disturbed by those its source reads");
  // hooks
  upd::no_storage_action h{upd::unevaluated<void (*)(u16), &note16>{}, e, s};
  byte_t hx[2], hy[2];
  u16 hv = (u16)x, hw = (u16)y;
  enc<F>(hx, hv); enc<F>(hy, hw);
  byte_t none[1];
  g_others = 0; n = 0; bool once = false;
  h([&]() { if (n == 1 && !once) { once = true; h((const byte_t *)hy, none); } return hx[n++]; }, [](byte_t) {});
  vp_assert(g_others == 2 && g_in == hw && g_got == hv, "a callback without result is not disturbed by the calls its source makes");
  upd::action ha{&note16, e, s};
  g_others = 0; n = 0; once = false;
  ha([&]() { if (n == 1 && !once) { once = true; ha((const byte_t *)hy); } return hx[n++]; });
  vp_assert(g_others == 2 && g_in == hw && g_got == hv, "an action without result is not disturbed by the calls its source makes");
  auto hk = key.with_hook(upd::unevaluated<void (*)(u32), &hear32>{});
  auto hl = key.with_hook(&hear32);
  for (int i = 0; i < 2; i++) {
    g_others = 0; n = 0;
    auto src = [&]() { if (n == 3 && g_others == 0) { if (i) hk((const byte_t *)by, none); else hl((const byte_t *)by, none); vp_assert(g_got == (u16)y, "inner hook"); } return bx[n++]; };
    if (i) hk(src, [](byte_t) {}); else hl(src, [](byte_t) {});
    vp_assert(g_others == 2 && g_got == (u16)x && g_in == (u16)(x >> 16), "a hook is not disturbed by those its source calls");
  }
  // packets
  auto p = key(7, x);
  byte_t out[6], in[6], want[6], wantin[6];
  std::size_t m = 0;
  want[0] = wantin[0] = 1; want[1] = 7; wantin[1] = 9;
  std::memcpy(want + 2, bx, 4); std::memcpy(wantin + 2, by, 4);
  p.write_to([&](byte_t b) {
    key(9, y).write_to(in + 0);
    vp_assert(same(in, wantin, 6), "a packet written by the sink of another");
    p.write_to(in + 0);
    vp_assert(same(in, want, 6), "a packet written by its own sink");
    out[m++] = b;
  });
  vp_assert(m == 6 && same(out, want, 6), "a packet is not disturbed by those its sink writes");
  for (auto b : out) vp_log(b);
  vp_cover("rest");
}
VP_CASE(busy_rest) { busy_rest<LT>(); busy_rest<BS>(); busy_rest<LO>(); busy_rest<BB>(); }
