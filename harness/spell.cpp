// C34: every spelling of a construction gives the same thing.
#include "user.hpp"
#include "stream.hpp"
// the callbacks of the keyrings, by name
static i16 one(u8 a, i16 b) { return cb<0, i16(u8, i16)>::fn(a, b); }
static void two() { cb<1, void()>::fn(); }
static vec three(i32 x, vec v) { return cb<2, vec(i32, vec)>::fn(x, v); }
static bool four(std::array<i16, 2> a) { return cb<3, bool(std::array<i16, 2>)>::fn(a); }
template<typename F> using model = ring<F, i16(u8, i16), void(), vec(i32, vec), bool(std::array<i16, 2>)>;
template<endianess E> using eh = upd::endianess_h<E>;
template<signed_mode S> using sh = upd::signed_mode_h<S>;

// one request by a key, compared with the specification
template<typename R, std::size_t I, typename K, typename... As> void request(const K &k, const As &...as) {
  using F = typename R::format;
  byte_t want[40], got[40];
  std::size_t n = 0, L = R::isize + R::in(I);
  R::put_index(want, I);
  pack_all<F>(want + R::isize, as...);
  vp_assert(K::index == I && K::endianess == F::e && K::signed_mode == F::s && K::payload_length == L && sizeof(typename K::index_t) == R::isize, "however a key is obtained, it has the index, format and size of its callback");
  k(as...).write_to(sink{got, &n, 40});
  vp_assert(n == L && same(got, want, L), "however a key is obtained, it sends the packet of its callback");
  for (std::size_t i = 0; i < L; i++) vp_log(got[i]);
}
template<typename R, typename K1, typename K2, typename K3, typename K4> void keys(const K1 &k1, const K2 &k2, const K3 &k3, const K4 &k4) {
  using F = typename R::format;
  vec v; wire<vec>::any<F>(v);
  std::array<i16, 2> a; wire<std::array<i16, 2>>::any<F>(a);
  const u8 x = vp_any<u8>();
  const i16 y = any_representable<i16>(F::s);
  const i32 z = any_representable<i32>(F::s);
  request<R, 0>(k1, x, y);
  request<R, 1>(k2);
  request<R, 2>(k3, z, v);
  request<R, 3>(k4, a);
}
// every way to get keys out of a keyring
template<typename R, typename K> void keyring(const K &k) {
  using F = typename R::format;
  vp_assert(K::size == 4 && K::endianess == F::e && K::signed_mode == F::s && sizeof(typename K::index_t) == R::isize, "however a keyring is made, it has its callbacks and format");
  switch (vp_choose(3)) {
  case 0: keys<R>(k.get(UPD_CTREF(one)), k.get(UPD_CTREF(two)), k.get(UPD_CTREF(three)), k.get(UPD_CTREF(four))); break;
  case 1: keys<R>(k.get(upd::unevaluated<i16 (*)(u8, i16), one>{}), k.get(upd::unevaluated<void (*)(), two>{}), k.get(upd::unevaluated<vec (*)(i32, vec), &three>{}), k.get(upd::unevaluated<bool (*)(std::array<i16, 2>), four>{})); break;
  default:
#if __cplusplus >= 201703L
    keys<R>(k.template get<one>(), k.template get<two>(), k.template get<three>(), k.template get<four>());
#else
    keys<R>(typename K::template key_t<decltype(UPD_CTREF(one))>{}, typename K::template key_t<decltype(UPD_CTREF(two))>{}, typename K::template key_t<decltype(UPD_CTREF(three))>{}, typename K::template key_t<decltype(UPD_CTREF(four))>{});
#endif
  }
  vp_cover("keyring");
}
#define FOUR UPD_CTREF(one), UPD_CTREF(two), UPD_CTREF(three), UPD_CTREF(four)
template<typename F> void keyrings() {
  using R = model<F>;
  switch (vp_choose(4)) {
  case 0: keyring<R>(upd::make_keyring(upd::make_flist(FOUR), eh<F::e>{}, sh<F::s>{})); break;
  case 1: { upd::keyring<F::e, F::s, decltype(UPD_CTREF(one)), decltype(UPD_CTREF(two)), decltype(UPD_CTREF(three)), decltype(UPD_CTREF(four))> k{}; keyring<R>(k); break; }
#if __cplusplus >= 201703L
  case 2: { constexpr upd::keyring k{upd::flist<one, two, three, four>, eh<F::e>{}, sh<F::s>{}}; keyring<R>(k); break; }
  default: { upd::keyring k{upd::make_flist(FOUR), eh<F::e>{}, sh<F::s>{}}; keyring<R>(k); break; }
#else
  default: break;
#endif
  }
}
VP_CASE(keyrings_LT) { keyrings<fmt<LE, TC>>(); }
VP_CASE(keyrings_BS) { keyrings<fmt<BE, SM>>(); }
VP_CASE(keyrings_LO) { keyrings<fmt<LE, OC>>(); }
VP_CASE(keyrings_BB) { keyrings<fmt<BE, OB>>(); }
#if __cplusplus >= 201703L
VP_CASE(keyring_default) { // little endian, two's complement
  constexpr upd::keyring k{upd::flist<one, two, three, four>};
  const upd::keyring l(upd::make_flist(FOUR));
  if (vp_choose(2)) keyring<model<fmt<LE, TC>>>(k); else keyring<model<fmt<LE, TC>>>(l);
}
#endif

// ---- dispatchers
template<typename R, typename S, typename D> void buffered(D &&d, S &s, journal &j) {
  for (unsigned i = 0; i < 2; i++) {
    packet<R> p;
    any_packet(p);
    put_all<R>(s, d, p);
    drain(s, d);
  }
  vp_assert(j == s.log, "however a dispatcher is made, it calls the callbacks of its keyring");
  vp_cover("buffered");
}
template<typename R, typename D> void plainly(D &&d, session<R> &s, journal &j) {
  for (unsigned i = 0; i < 2; i++) {
    packet<R> p;
    any_packet(p);
    std::size_t n = 0, m = 0, e = 0;
    byte_t out[40], want[40];
    for (std::size_t b = 0; b < p.len; b++) s.put(p.bytes[b]);
    while (p.known() && s.loaded()) want[e++] = s.get();
    auto idx = d(source{p.bytes, &n}, sink{out, &m, 40});
    vp_assert(n == p.len && m == e && same(out, want, e) && idx == R::index(p.bytes), "however a dispatcher is made, it answers with the results of its callbacks");
  }
  vp_assert(j == s.log, "however a dispatcher is made, it calls the callbacks of its keyring");
  vp_cover("plain");
}
template<typename F> void dispatchers(bool any) {
  using R = model<F>;
  auto k = upd::make_keyring(upd::make_flist(FOUR), eh<F::e>{}, sh<F::s>{});
  using K = decltype(k);
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  unsigned which = vp_choose(3), how = vp_choose(__cplusplus >= 201703L ? 4 : 3);
#if __cplusplus >= 201703L
#define GUIDED(T, P) case 3: { upd::T d{k, P}; CHECK(d); break; }
#else
#define GUIDED(T, P)
#endif
#define MAKE(T, TYPE, MAKER, P)                                                                                          \
  switch (how) {                                                                                                        \
  case 0: { auto d = upd::MAKER(k, P); CHECK(d); break; }                                                               \
  case 1: { TYPE d; CHECK(d); break; }                                                                                  \
  GUIDED(T, P)                                                                                                          \
  default: { TYPE d{k, P}; CHECK(d); }                                                                                  \
  }
#define DISP(FEAT) upd::dispatcher<K, FEAT>
#define SGL(FEAT) upd::single_buffered_dispatcher<DISP(FEAT)>
#define DBL(FEAT) upd::double_buffered_dispatcher<DISP(FEAT)>
  using da = DISP(ANY); using dw = DISP(WEAK); using sa = SGL(ANY); using sw = SGL(WEAK); using ba = DBL(ANY); using bw = DBL(WEAK);
#define CHECK(d) plainly<R>(d, s, j)
  if (which == 0 && any) { MAKE(dispatcher, da, make_dispatcher, upd::policy::any_callback) }
  if (which == 0 && !any) { MAKE(dispatcher, dw, make_dispatcher, upd::policy::weak_reference) }
#undef CHECK
#define CHECK(d) buffered<R>(d, s, j)
  if (which == 1 && any) { MAKE(single_buffered_dispatcher, sa, make_single_buffered_dispatcher, upd::policy::any_callback) }
  if (which == 1 && !any) { MAKE(single_buffered_dispatcher, sw, make_single_buffered_dispatcher, upd::policy::weak_reference) }
  if (which == 2 && any) { MAKE(double_buffered_dispatcher, ba, make_double_buffered_dispatcher, upd::policy::any_callback) }
  if (which == 2 && !any) { MAKE(double_buffered_dispatcher, bw, make_double_buffered_dispatcher, upd::policy::weak_reference) }
}
VP_CASE(dispatchers_any) { dispatchers<fmt<BE, SM>>(true); }
VP_CASE(dispatchers_weak) { dispatchers<fmt<LE, OB>>(false); }

// ---- tuples and views
template<typename F, typename T, typename V> void holds(const T &t, V &v, const byte_t *want, std::size_t n) {
  vp_assert(T::size == n && T::storage_endianess == F::e && T::storage_signed_mode == F::s && std::tuple_size<T>::value == 4, "however a tuple or view is made, it has its fields and format");
  vp_assert(same_it(t.begin(), want, n), "however a tuple is made, it holds the bytes of its values");
  vp_assert(eq(pick<0>::get(v), upd::get<0>(t)) && eq(pick<1>::get(v), upd::get<1>(t)) && eq(pick<2>::get(v), upd::get<2>(t)) && eq(pick<3>::get(v), upd::get<3>(t)), "the free get reads every field");
#if __cplusplus >= 201703L
  auto [a, b, c, d] = t;
  vp_assert(eq(pick<0>::get(v), a) && eq(pick<1>::get(v), b) && eq(pick<2>::get(v), c) && eq(pick<3>::get(v), d), "structured bindings read every field");
#endif
  vp_cover("holds");
}
template<typename F, typename T, typename V> void element_types() {
  static_assert(std::is_same<typename std::tuple_element<0, T>::type, i32>::value && std::is_same<typename std::tuple_element<1, T>::type, vec>::value &&
                std::is_same<typename std::tuple_element<2, T>::type, std::array<i16, 2>>::value && std::is_same<typename std::tuple_element<3, T>::type, bool>::value, "");
}
template<typename F> void tuples() {
  using A = std::array<i16, 2>;
  using T = upd::tuple<F::e, F::s, i32, vec, A, bool>;
  eh<F::e> e{}; sh<F::s> s{};
  values<i32, vec, A, bool> v;
  v.template any<F>();
  const i32 a = pick<0>::get(v); const vec b = pick<1>::get(v); const A c = pick<2>::get(v); const bool d = pick<3>::get(v);
  constexpr std::size_t N = 4 + 7 + 4 + 1;
  byte_t want[N];
  pack_values<F>(want, v);
  element_types<F, T, void>();
  element_types<F, upd::tuple_view<byte_t *, F::e, F::s, i32, vec, A, bool>, void>();
  switch (vp_choose(__cplusplus >= 201703L ? 9 : 8)) {
  case 0: { T t{a, b, c, d}; holds<F>(t, v, want, N); break; }
  case 1: holds<F>(upd::make_tuple(e, s, a, b, c, d), v, want, N); break;
  case 2: { auto t = upd::make_tuple<i32, vec, A, bool>(e, s); upd::set<0>(t, a); upd::set<1>(t, b); upd::set<2>(t, c); upd::set<3>(t, d); holds<F>(t, v, want, N); break; }
  case 3: { T t; t.template set<3>(d); t.template set<2>(c); t.template set<1>(b); t.template set<0>(a); holds<F>(t, v, want, N); break; }
  case 4: { byte_t bytes[N]; std::memcpy(bytes, want, N); holds<F>(upd::make_view<i32, vec, A, bool>(e, s, bytes + 0), v, want, N); break; }
  case 5: { const byte_t *bytes = want; upd::tuple_view<const byte_t *, F::e, F::s, i32, vec, A, bool> t{bytes}; holds<F>(t, v, want, N); break; }
  case 6: { T t{a, b, c, d}; holds<F>(t.template view<0, 4>(), v, want, N); const T &u = t; holds<F>(u.template view<0, 4>(), v, want, N); break; }
  case 7: { T t{a, b, c, d}; holds<F>(upd::make_view<0, 4>(t), v, want, N); const T &u = t; holds<F>(upd::make_view<0, 4>(u), v, want, N); break; }
#if __cplusplus >= 201703L
  default: { upd::tuple t{e, s, a, b, c, d}; holds<F>(t, v, want, N); }
#endif
  }
}
VP_CASE(tuples_LT) { tuples<fmt<LE, TC>>(); }
VP_CASE(tuples_BS) { tuples<fmt<BE, SM>>(); }
VP_CASE(tuples_LO) { tuples<fmt<LE, OC>>(); }
VP_CASE(tuples_BB) { tuples<fmt<BE, OB>>(); }
