// C07 C08 C09: views over any iterator, assignment between formats and storages, invocation.
#include "layout.hpp"

template<typename F>
void slices() {
  using tup = upd::tuple<F::e, F::s, u8, i32, bool, std::array<i16, 2>, u16, i8>;
  constexpr std::size_t n = 13;
  byte_t model[n];
  vp_sym_bytes(model, n);
  tup *p = new tup; tup &t = *p; const tup &ct = t;
  for (std::size_t i = 0; i < n; i++) t[i] = model[i];
  auto a = t.template view<1, 3>();
  auto b = ct.template view<1, 3>();
  auto c = upd::make_view<1, 3>(t);
  auto d = upd::make_view<1, 3>(ct);
  vp_assert(a.size == 9 && a.begin() == t.begin() + 1 && a.end() == t.begin() + 10 && b.begin() == a.begin() && b.end() == a.end() &&
            c.begin() == a.begin() && c.end() == a.end() && d.begin() == a.begin() && d.end() == a.end(), "a slice spans exactly its fields");
  vp_assert(a.template get<0>() == t.template get<1>() && a.template get<1>() == t.template get<2>() && a.template get<2>() == t.template get<3>(), "a slice reads the fields of the tuple");
  vp_assert(b.template get<0>() == t.template get<1>() && b.template get<1>() == t.template get<2>() && d.template get<2>() == t.template get<3>(), "a const slice reads the fields of the tuple");
  i32 x = any_representable<i32>(F::s);
  a.template set<0>(x);
  enc<F>(model + 1, x);
  vp_assert(same(t.begin(), model, n) && b.template get<0>() == x && c.template get<0>() == x, "writing through a slice writes the tuple");
  std::array<i16, 2> y; wire<std::array<i16, 2>>::template any<F>(y);
  c.template set<2>(y);
  pack_all<F>(model + 6, y);
  vp_assert(same(t.begin(), model, n) && t.template get<3>() == y, "writing through a slice writes the tuple");
  auto e = t.template view<0, 1>(); auto f = t.template view<5, 1>(); auto g = t.template view<0, 6>(); auto h = t.template view<4, 2>();
  vp_assert(e.begin() == t.begin() && e.size == 1 && f.begin() == t.begin() + 12 && f.size == 1 && g.begin() == t.begin() && g.size == n &&
            h.begin() == t.begin() + 10 && h.size == 3, "first, last, whole and tail slices");
  i8 z = any_representable<i8>(F::s);
  f.template set<0>(z);
  enc<F>(model + 12, z);
  h.template set<0>((u16)x);
  enc<F>(model + 10, (u16)x);
  vp_assert(same(t.begin(), model, n) && g.template get<5>() == z && h.template get<1>() == z && g.template get<4>() == (u16)x, "slices alias each other");
  auto w = t.template view<2, 0>();
  vp_assert(w.size == 0 && w.begin() == w.end() && w.begin() == t.begin() + 5, "an empty slice");
  auto w0 = ct.template view<0, 0>(); auto w6 = ct.template view<6, 0>();
  vp_assert(w0.begin() == t.begin() && w0.end() == t.begin() && w6.begin() == t.end() && w6.end() == t.end(), "empty slices at either end");
  for (auto k : t) vp_log(k);
  delete p;
  vp_cover("slices");
}
// fields beyond the 255th byte, in tuples and over any iterator
template<typename F>
void far_slices() {
  using tup = upd::tuple<F::e, F::s, u8[200], i16, std::array<u16, 40>, i32, u8[300], i8, u16>;
  constexpr std::size_t o3 = 282, o5 = 586, n = 589;
  tup *p = new tup; tup &t = *p; const tup &ct = t;
  byte_t raw[7];
  vp_sym_bytes(raw, 7);
  for (std::size_t i = 0; i < 4; i++) t[o3 + i] = raw[i];
  for (std::size_t i = 0; i < 3; i++) t[o5 + i] = raw[4 + i];
  i32 x = dec<F, i32>(raw); i8 y = dec<F, i8>(raw + 4); u16 z = dec<F, u16>(raw + 5);
  auto a = t.template view<3, 1>(); auto b = ct.template view<1, 3>(); auto c = upd::make_view<5, 2>(t); auto d = upd::make_view<3, 4>(ct);
  vp_assert(a.begin() == t.begin() + o3 && a.end() == a.begin() + 4 && b.begin() == t.begin() + 200 && b.end() == a.end() && c.begin() == t.begin() + o5 && c.end() == t.end() &&
            d.begin() == a.begin() && d.end() == t.end() && d.size == n - o3, "a slice far from the start spans exactly its fields");
  vp_assert(a.template get<0>() == x && b.template get<2>() == x && d.template get<0>() == x && c.template get<0>() == y && d.template get<2>() == y &&
            c.template get<1>() == z && d.template get<3>() == z && t.template get<3>() == x && t.template get<5>() == y && t.template get<6>() == z, "a slice far from the start reads the fields of the tuple");
  i32 v = any_representable<i32>(F::s);
  a.template set<0>(v);
  enc<F>(raw, v);
  c.template set<1>((u16)v);
  enc<F>(raw + 5, (u16)v);
  vp_assert(same(t.begin() + o3, raw, 4) && same(t.begin() + o5, raw + 4, 3) && ct.template get<3>() == v && t[o3 - 1] == 0 && t[o3 + 4] == 0 && t[o5 - 1] == 0, "writing through a slice far from the start writes the tuple");
  for (std::size_t i = 0; i < 3; i++) vp_log(t[o5 + i]);
  delete p;
  vp_cover("far slices");
}
template<typename F>
void far_views() {
  std::list<byte_t> l(300); std::deque<byte_t> q(300); byte_t m[300] = {};
  upd::tuple_view<std::list<byte_t>::iterator, F::e, F::s, u8[120], u16[70], i32, i8[30], i16, i8> lv{l.begin()};
  upd::tuple_view<std::deque<byte_t>::iterator, F::e, F::s, u8[120], u16[70], i32, i8[30], i16, i8> qv{q.begin()};
  upd::tuple_view<byte_t *, F::e, F::s, u8[120], u16[70], i32, i8[30], i16, i8> mv{m};
  i16 x = any_representable<i16>(F::s); i32 y = any_representable<i32>(F::s);
  byte_t w[6];
  enc<F>(w, x); enc<F>(w + 2, y);
  lv.template set<4>(x); qv.template set<4>(x); mv.template set<4>(x);
  lv.template set<2>(y); qv.template set<2>(y); mv.template set<2>(y);
  auto li = std::next(l.begin(), 294);
  auto ly = std::next(l.begin(), 260);
  bool ok = true;
  for (int i = 0; i < 4; i++, ++ly) ok = ok & (*ly == w[2 + i]) & (q[260 + i] == w[2 + i]) & (m[260 + i] == w[2 + i]);
  vp_assert(ok && m[294] == w[0] && m[295] == w[1] && q[294] == w[0] && q[295] == w[1] && *li == w[0] && *std::next(li) == w[1], "a field far from the start of a view is written at its place");
  vp_assert(lv.template get<4>() == x && qv.template get<4>() == x && mv.template get<4>() == x && lv.template get<2>() == y && qv.template get<2>() == y && mv.template get<2>() == y, "and read there");
  vp_assert(lv.end() == std::next(li, 3) && mv.end() == m + 297, "the end of a large view");
  vp_cover("far views");
}
#ifdef C07
VP_CASE(far) { SPEC_ALL_FORMATS(far_slices); }
VP_CASE(far_views) { SPEC_ALL_FORMATS(far_views); }
VP_CASE(raw) { VIEWS(raw_c); }
VP_CASE(vec) { VIEWS(vec_c); }
VP_CASE(list) { VIEWS(list_c); }
VP_CASE(flist) { VIEWS(flist_c); }
VP_CASE(deque) { VIEWS(deque_c); }
VP_CASE(rev) { VIEWS(rev_c); }
VP_CASE(stride) { VIEWS(stride_c); }
VP_CASE(array) { VIEWS(array_c); }
VP_CASE(slices) { SPEC_ALL_FORMATS(slices); }
#endif

// ---------------------------------------------------------------- C08
enum { TUP, VIEW, LISTVIEW, CONSTVIEW };
template<typename F> bool rep(i32 x, i8 z) { return representable(x, F::s) && representable(z, F::s); }

template<typename FS, typename FD>
void assign() {
  using St = upd::tuple<FS::e, FS::s, i32, u16, i8, bool>;
  using Dt = upd::tuple<FD::e, FD::s, i32, u16, i8, bool>;
  constexpr std::size_t n = 8;
  i32 x = vp_any<i32>(); u16 y = vp_any<u16>(); i8 z = vp_any<i8>(); bool b = vp_any<bool>();
  vp_assume(rep<FS>(x, z) && rep<FD>(x, z));
  byte_t sw[n], dw[n];
  pack_all<FS>(sw, x, y, z, b);
  pack_all<FD>(dw, x, y, z, b);
  St s{x, y, z, b};
  const St &cs = s;
  upd::tuple_view<byte_t *, FS::e, FS::s, i32, u16, i8, bool> sv{s.begin()};
  upd::tuple_view<const byte_t *, FS::e, FS::s, i32, u16, i8, bool> scv{cs.begin()};
  // tuple destinations
  constexpr bool other = FS::e != FD::e || FS::s != FD::s;
  { Dt d; Dt &r = (d = std::move(s)); vp_assert(&r == &d && same(d.begin(), dw, n), "tuple = tuple converts the format and keeps the values"); }
  vp_assert(same(s.begin(), sw, n), "the source is unchanged");
  { Dt d; d = std::move(sv); vp_assert(same(d.begin(), dw, n), "tuple = view"); }
  { Dt d; d = std::move(scv); vp_assert(same(d.begin(), dw, n), "tuple = read-only view"); }
  { Dt d; d = St{x, y, z, b}; vp_assert(same(d.begin(), dw, n), "tuple = temporary tuple"); }
  { Dt d; d = s.template view<0, 4>(); vp_assert(same(d.begin(), dw, n), "tuple = slice"); }
  { Dt d; d = cs.template view<0, 4>(); vp_assert(same(d.begin(), dw, n), "tuple = const slice"); }
  // view destinations, amid other bytes
  byte_t g[2];
  vp_sym_bytes(g, 2);
  byte_t buf[n + 2];
  buf[0] = g[0]; buf[n + 1] = g[1];
  upd::tuple_view<byte_t *, FD::e, FD::s, i32, u16, i8, bool> dv{buf + 1};
  auto intact = [&]() { return same(buf + 1, dw, n) && buf[0] == g[0] && buf[n + 1] == g[1]; };
  std::memset(buf + 1, 0x5a, n); dv = std::move(s);
  vp_assert(intact(), "view = tuple");
  std::memset(buf + 1, 0x5a, n); dv = upd::tuple_view<const byte_t *, FS::e, FS::s, i32, u16, i8, bool>{cs.begin()};
  vp_assert(intact(), "view = read-only view");
  if (other) {
    std::memset(buf + 1, 0x5a, n); dv = std::move(sv);
    vp_assert(intact(), "view = view of another format");
  }
  std::memset(buf + 1, 0x5a, n); dv = cs.template view<0, 4>();
  vp_assert(intact(), "view = slice");
  vp_assert(dv.begin() == buf + 1 && dv.end() == buf + 1 + n, "assignment does not rebind the view");
  vp_assert(same(s.begin(), sw, n), "the source is unchanged");
  // list storage
  std::list<byte_t> l(n + 1);
  upd::tuple_view<std::list<byte_t>::iterator, FD::e, FD::s, i32, u16, i8, bool> lv{l.begin()};
  l.back() = g[0];
  lv = std::move(s);
  vp_assert(same_it(l.begin(), dw, n) && l.back() == g[0], "list view = tuple");
  Dt d; d = std::move(lv);
  vp_assert(same(d.begin(), dw, n), "tuple = list view");
  { // in place: the same bytes through views of both formats
    byte_t m[n + 1];
    std::memcpy(m, sw, n);
    m[n] = g[0];
    upd::tuple_view<byte_t *, FD::e, FD::s, i32, u16, i8, bool> to{m};
    to = upd::tuple_view<const byte_t *, FS::e, FS::s, i32, u16, i8, bool>{m};
    vp_assert(same(m, dw, n) && m[n] == g[0], "a sequence of bytes is converted in place through two views");
  }
  if (other) { // only some of the fields
    Dt d2; byte_t w[n] = {};
    pack_all<FD>(w, i32{}, y, z, bool{});
    auto part = d2.template view<1, 2>();
    part = s.template view<1, 2>();
    vp_assert(same(d2.begin(), w, n), "slice = slice of another format");
  }
  vp_assert(same(s.begin(), sw, n), "the source is unchanged");
  vp_log(word(d.begin(), n, LE));
  vp_cover("assign");
}
template<typename FS> struct from { template<typename FD> static void to() { assign<FS, FD>(); } };
template<typename FS, typename FD>
void assign_arrays() {
  using A = std::array<i16, 3>;
  upd::tuple<FS::e, FS::s, u8, A, ll> s; upd::tuple<FD::e, FD::s, u8, A, ll> d;
  u8 x = vp_any<u8>(); A a; wire<A>::template any<FS>(a);
  for (auto e : a) vp_assume(representable(e, FD::s));
  ll y = any_representable<ll>(FS::s);
  vp_assume(representable(y, FD::s));
  s.template set<0>(x); s.template set<1>(a); s.template set<2>(y);
  byte_t w[15];
  pack_all<FD>(w, x, a, y);
  d = std::move(s);
  vp_assert(same(d.begin(), w, 15), "assignment converts arrays element by element");
  upd::tuple<FS::e, FS::s, u8, i16[3], ll> cs; upd::tuple<FD::e, FD::s, u8, i16[3], ll> cd;
  i16 ca[3] = {a[0], a[1], a[2]};
  cs.template set<0>(x); cs.template set<1>(ca); cs.template set<2>(y);
  cd = std::move(cs);
  vp_assert(same(cd.begin(), w, 15), "assignment converts plain arrays element by element");
  cs = upd::tuple<FS::e, FS::s, u8, i16[3], ll>{};
  cs = std::move(d); cd = upd::tuple<FD::e, FD::s, u8, i16[3], ll>{};
  byte_t raw[17];
  upd::tuple_view<byte_t *, FD::e, FD::s, u8, i16[3], ll> v{raw + 1};
  raw[0] = raw[16] = 0x5a;
  v = std::move(cs); // from the other kind of array, and back
  vp_assert(same(raw + 1, w, 15) && raw[0] == 0x5a && raw[16] == 0x5a, "assignment converts plain arrays in views");
  upd::tuple<FD::e, FD::s, u8, A, ll> back; back = std::move(v);
  vp_assert(same(back.begin(), w, 15), "assignment between plain and standard arrays");
  vp_cover("assign arrays");
}
#ifdef C08
VP_CASE(le_sm) { using X = from<fmt<LE, SM>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(le_oc) { using X = from<fmt<LE, OC>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(le_tc) { using X = from<fmt<LE, TC>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(le_ob) { using X = from<fmt<LE, OB>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(be_sm) { using X = from<fmt<BE, SM>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(be_oc) { using X = from<fmt<BE, OC>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(be_tc) { using X = from<fmt<BE, TC>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(be_ob) { using X = from<fmt<BE, OB>>; SPEC_ALL_FORMATS(X::template to); }
VP_CASE(arrays) {
  assign_arrays<fmt<LE, TC>, fmt<BE, SM>>(); assign_arrays<fmt<BE, OB>, fmt<LE, TC>>(); assign_arrays<fmt<BE, OC>, fmt<LE, SM>>();
}
#endif

// ---------------------------------------------------------------- C09
static int g_calls;
static i32 g_a; static u16 g_b[3]; static bool g_c; static i8 g_d; static u16 g_ret;
static u16 f_val(i32 a, std::array<u16, 3> b, bool c, i8 d) { g_calls++; g_a = a; for (int i = 0; i < 3; i++) g_b[i] = b[i]; g_c = c; g_d = d; return g_ret; }
static u16 f_cref(const i32 &a, const std::array<u16, 3> &b, const bool &c, const i8 &d) { return f_val(a, b, c, d); }
static u16 f_rref(i32 &&a, std::array<u16, 3> &&b, bool &&c, i8 &&d) { return f_val(a, b, c, d); }
static u16 f_carr(i32 a, const u16 (&b)[3], bool c, i8 d) { return f_val(a, std::array<u16, 3>{{b[0], b[1], b[2]}}, c, d); }
static u16 f_carr2(i32 a, u16 (&&b)[3], bool c, i8 d) { return f_val(a, std::array<u16, 3>{{b[0], b[1], b[2]}}, c, d); }
static u16 f_ptr(i32 a, const u16 *b, bool c, i8 d) { return f_val(a, std::array<u16, 3>{{b[0], b[1], b[2]}}, c, d); }
struct functor {
  int *n;
  u16 operator()(i32 a, std::array<u16, 3> b, bool c, i8 d) const { ++*n; return f_val(a, b, c, d); }
};
struct mutable_functor {
  int n;
  u16 operator()(const i32 &a, const std::array<u16, 3> &b, bool c, i8 d) { n++; return f_val(a, b, c, d); }
};
template<typename T, typename Fn>
void check_invoke(T &t, Fn &&f, i32 a, const u16 *b, bool c, i8 d, const byte_t *bytes) {
  g_calls = 0; g_a = 0; g_d = 0; g_c = false; for (auto &e : g_b) e = 0;
  g_ret = vp_any<u16>();
  u16 r = t.invoke(std::forward<Fn>(f));
  vp_assert(g_calls == 1, "the callback is called exactly once");
  vp_assert(g_a == a && g_b[0] == b[0] && g_b[1] == b[1] && g_b[2] == b[2] && g_c == c && g_d == d, "the callback receives the stored values in field order");
  vp_assert(r == g_ret, "the result of the callback is returned unchanged");
  unsigned x = 0, i = 0;
  for (auto q = t.begin(); q != t.end(); ++q) x |= (unsigned)(*q ^ bytes[i++]);
  vp_assert(x == 0, "invoking does not modify the tuple");
  vp_log(r); vp_log((u64)g_a);
}
template<typename F>
void invoke() {
  i32 a = any_representable<i32>(F::s); u16 b[3]; bool c = vp_any<bool>(); i8 d = any_representable<i8>(F::s);
  for (auto &e : b) e = vp_any<u16>();
  std::array<u16, 3> sb{{b[0], b[1], b[2]}};
  byte_t w[12];
  pack_all<F>(w, a, b, c, d);
  upd::tuple<F::e, F::s, i32, std::array<u16, 3>, bool, i8> t{a, sb, c, d};
  const auto &ct = t;
  upd::tuple<F::e, F::s, i32, u16[3], bool, i8> u{a, b, c, d};
  const auto &cu = u;
  std::list<byte_t> l(t.begin(), t.end());
  upd::tuple_view<std::list<byte_t>::iterator, F::e, F::s, i32, std::array<u16, 3>, bool, i8> lv{l.begin()};
  upd::tuple_view<const byte_t *, F::e, F::s, i32, u16[3], bool, i8> cv{cu.begin()};
  check_invoke(t, f_val, a, b, c, d, w);
  check_invoke(ct, &f_cref, a, b, c, d, w);
  check_invoke(t, f_rref, a, b, c, d, w);
  check_invoke(u, f_carr, a, b, c, d, w);
  check_invoke(cu, f_carr2, a, b, c, d, w);
  check_invoke(u, f_ptr, a, b, c, d, w);
  check_invoke(lv, f_val, a, b, c, d, w);
  check_invoke(cv, f_carr, a, b, c, d, w);
  int n = 0;
  functor fn{&n};
  check_invoke(t, fn, a, b, c, d, w);
  check_invoke(ct, functor{&n}, a, b, c, d, w);
  vp_assert(n == 2, "a functor is called in place");
  mutable_functor mf{0};
  check_invoke(lv, mf, a, b, c, d, w);
  check_invoke(t, mf, a, b, c, d, w);
  vp_assert(mf.n == 2, "an lvalue functor keeps its state");
  int k = 0; i32 la = 0; i8 ld = 0;
  t.invoke([&](i32 x, std::array<u16, 3>, bool, i8 y) { k++; la = x; ld = y; });
  vp_assert(k == 1 && la == a && ld == d, "a void callback");
  // a view slice
  auto s = t.template view<2, 2>();
  int r = s.invoke([&](bool x, i8 y) { return x == c && y == d ? 7 : 8; });
  vp_assert(r == 7, "invoking on a slice passes the fields of the slice");
  vp_cover("invoke");
}
// results of any type pass through, references included
static i32 g_obj;
static i32 &ret_ref(u8) { return g_obj; }
struct big { ll v[4]; };
static big ret_big(u8 x, i16 y) { return big{{x, y, x, 3}}; }
static std::array<i16, 2> ret_arr(u8 x, i16 y) { return {{y, x}}; }
struct move_only {
  int v; explicit move_only(int x) : v{x} {} move_only(move_only &&o) : v{o.v} { o.v = -1; } move_only(const move_only &) = delete;
};
static move_only ret_mo(u8 x, i16) { return move_only{x + 1}; }
template<typename F>
void results() {
  u8 x = vp_any<u8>(); i16 y = any_representable<i16>(F::s);
  upd::tuple<F::e, F::s, u8> t{x};
  upd::tuple<F::e, F::s, u8, i16> u{x, y};
  vp_assert(&t.invoke(ret_ref) == &g_obj, "a reference result stays a reference");
  big b = u.invoke(ret_big);
  vp_assert(b.v[0] == x && b.v[1] == y && b.v[2] == x && b.v[3] == 3, "a structure result");
  auto a = u.invoke(ret_arr);
  vp_assert(a[0] == y && a[1] == x, "an array result");
  vp_assert(u.invoke(ret_mo).v == x + 1, "a move-only result");
  vp_cover("results");
}
// many parameters
static ll sum9(u8 a, i8 b, u16 c, i16 d, u32 e, i32 f, bool g, ll h, char i) {
  g_calls++;
  return a + 3ll * b + 5ll * c + 7ll * d + 11ll * e + 13ll * f + 17 * g + 19 * (h >> 8) + 23 * i;
}
template<typename F>
void many() {
  u8 a = vp_any<u8>(); i8 b = any_representable<i8>(F::s); u16 c = vp_any<u16>(); i16 d = any_representable<i16>(F::s); u32 e = vp_any<u32>();
  i32 f = any_representable<i32>(F::s); bool g = vp_any<bool>(); ll h = any_representable<ll>(F::s); char i = any_representable<char>(F::s);
  upd::tuple<F::e, F::s, u8, i8, u16, i16, u32, i32, bool, ll, char> t{a, b, c, d, e, f, g, h, i};
  bool ok = false;
  t.invoke([&](u8 a2, i8 b2, u16 c2, i16 d2, u32 e2, i32 f2, bool g2, ll h2, char i2) {
    ok = (a == a2) & (b == b2) & (c == c2) & (d == d2) & (e == e2) & (f == f2) & (g == g2) & (h == h2) & (i == i2);
  });
  vp_assert(ok, "nine parameters in order");
  vp_cover("many");
}
#ifdef C09
VP_CASE(invoke) { SPEC_ALL_FORMATS(invoke); }
VP_CASE(results) { SPEC_ALL_FORMATS(results); }
VP_CASE(many) { SPEC_ALL_FORMATS(many); }
#endif
