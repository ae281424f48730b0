// C04 C05: tuples of integers and arrays.
#include "layout.hpp"

// fields beyond 255 bytes: a long array between two fields, a few symbolic elements at symbolic places
template<typename F, typename T, std::size_t N>
void large_case() {
  constexpr std::size_t n = N * sizeof(T);
  static T a[N];
  for (std::size_t i = 0; i < N; i++) a[i] = (T)(i * 7 + 1);
  a[0] = any_representable<T>(F::s); a[N - 1] = any_representable<T>(F::s); a[N / 2] = any_representable<T>(F::s);
  u8 x = vp_any<u8>(); i16 y = any_representable<i16>(F::s), z = any_representable<i16>(F::s);
  using tup = upd::tuple<F::e, F::s, u8, T[N], i16, u8>;
  vp_assert(tup::size == n + 4, "the size of a large tuple is the sum of the sizes of its fields");
  tup *t = new tup{x, a, y, x};
  byte_t want[n + 4];
  pack_all<F>(want, x, a, y, x);
  vp_assert(same(t->begin(), want, n + 4), "large fields are packed in order");
  vp_assert(t->template get<2>() == y && t->template get<3>() == x && t->template get<0>() == x, "fields around a large field");
  t->template set<2>(z);
  enc<F>(want + 1 + n, z);
  vp_assert(same(t->begin(), want, n + 4), "setting a field behind a large field");
  auto r = t->template get<1>();
  vp_assert(r.size() == N && wire<T[N]>::equal(a, r), "a large array reads back equal");
  auto v = t->template view<2, 2>();
  vp_assert(v.begin() == t->begin() + n + 1 && v.template get<0>() == z && v.template get<1>() == x, "view behind a large field");
  delete t;
  vp_cover("large");
}
// default constructed tuples hold default values
template<typename F, typename... Ts>
void default_case() {
  upd::tuple<F::e, F::s, Ts...> t;
  auto u = upd::make_tuple<Ts...>(upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{});
  constexpr std::size_t N = sum_size<Ts...>::value;
  byte_t want[N + 1];
  upd::tuple<F::e, F::s, Ts...> *p = new upd::tuple<F::e, F::s, Ts...>();
  pack_all<F>(want, Ts{}...);
  vp_assert(same(t.begin(), want, N) && same(u.begin(), want, N) && same(p->begin(), want, N), "a default constructed tuple holds default values");
  delete p;
  vp_cover("default");
}
// sequences of sets on any fields, in any order
template<typename F>
void sets_case() {
  upd::tuple<F::e, F::s, u8, i32, bool, u16, ll> t;
  u8 a{}; i32 b{}; bool c{}; u16 d{}; ll e{};
  for (int k = 0; k < SETS; k++) {
    switch (vp_choose(5)) {
    case 0: a = vp_any<u8>(); t.template set<0>(a); break;
    case 1: b = any_representable<i32>(F::s); t.template set<1>(b); break;
    case 2: c = vp_any<bool>(); t.template set<2>(c); break;
    case 3: d = vp_any<u16>(); t.template set<3>(d); break;
    default: e = any_representable<ll>(F::s); t.template set<4>(e); break;
    }
    byte_t want[16];
    pack_all<F>(want, a, b, c, d, e);
    vp_assert(same(t.begin(), want, 16), "after any sequence of sets each field holds the last value set");
  }
  vp_assert(t.template get<0>() == a && t.template get<1>() == b && t.template get<2>() == c && t.template get<3>() == d && t.template get<4>() == e, "fields read back");
  vp_cover("sets");
}
template<typename F>
void empty_case() {
  upd::tuple<F::e, F::s> t;
  vp_assert(t.size == 0 && t.begin() == t.end(), "an empty tuple has no byte");
  unsigned n = 0;
  for (auto b : t) { (void)b; n++; }
  vp_assert(n == 0, "an empty tuple has no byte");
  int calls = 0;
  t.invoke([&]() { calls++; });
  vp_assert(calls == 1, "an empty tuple invokes with no argument");
  vp_cover("empty");
}
template<typename F>
void deduce_case() {
  i32 a = any_representable<i32>(F::s); u16 b = vp_any<u16>(); bool c = vp_any<bool>();
  byte_t want[7];
  pack_all<F>(want, a, b, c);
#if __cplusplus >= 201703L
  upd::tuple t{upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}, a, b, c};
  vp_assert(same(t.begin(), want, 7), "deduced tuple");
  auto [x, y, z] = t;
  vp_assert(x == a && y == b && z == c, "structured binding");
#endif
  auto u = upd::make_tuple(upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}, a, b, c);
  vp_assert(u.size == 7 && same(u.begin(), want, 7), "make_tuple");
  vp_assert(decltype(u)::storage_endianess == F::e && decltype(u)::storage_signed_mode == F::s, "make_tuple keeps the requested format");
  vp_cover("deduce");
}

#ifdef C04
VP_CASE(ints) { SPEC_ALL_FORMATS(layout_case, u8, i32, bool, ll, u16, char); }
VP_CASE(odd) { SPEC_ALL_FORMATS(layout_case, i16, u8, u32, i8, unsigned long long, bool, wchar_t); }
VP_CASE(one) { SPEC_ALL_FORMATS(layout_case, i32); }
VP_CASE(one_byte) { SPEC_ALL_FORMATS(layout_case, i8); }
VP_CASE(twelve) { layout_case<fmt<BE, OB>, u8, i8, u16, i16, u32, i32, unsigned long, long, bool, char, short, char16_t>(); }
VP_CASE(twelve2) { layout_case<fmt<LE, SM>, ll, ll, u8, i16, bool, bool, i32, u16, char32_t, signed char, short, u8>(); }
VP_CASE(forty) { layout_case<fmt<BE, TC>, u8, i16, u8, u16, u8, u8, i8, u8, u16, u8, bool, i16, u8, u8, u8, i8, u16, u8, u8, u8, i32, u8, u8, u16, u8, u8, i8, u8, u8, i16, u8, u8, bool, u8, u16, u8, i8, u8, u8, i16>(); }
VP_CASE(mixed_arrays) { SPEC_ALL_FORMATS(layout_case, u8, i16[3], bool, std::array<u32, 2>, i8); }
VP_CASE(same_types) { SPEC_ALL_FORMATS(layout_case, i16, i16, i16, i16); }
VP_CASE(large1) { large_case<fmt<LE, TC>, u8, 300>(); }
VP_CASE(large2) { large_case<fmt<BE, SM>, i16, 140>(); }
VP_CASE(large3) { large_case<fmt<LE, OB>, i32, 65>(); }
VP_CASE(defaults) { SPEC_ALL_FORMATS(default_case, u8, i32, bool, ll, u16, char); SPEC_ALL_FORMATS(default_case, i8, std::array<i16, 2>, u8); }
VP_CASE(sets) { sets_case<fmt<LE, TC>>(); }
VP_CASE(sets2) { sets_case<fmt<BE, SM>>(); }
VP_CASE(empty) { SPEC_ALL_FORMATS(empty_case); }
VP_CASE(deduce) { SPEC_ALL_FORMATS(deduce_case); }
#endif

// ---------------------------------------------------------------- C05
template<typename F, typename T, std::size_t N>
void twin_case() { // C array and std::array forms, amid other fields
  T a[N]; std::array<T, N> b;
  wire<T[N]>::template any<F>(a);
  for (std::size_t i = 0; i < N; i++) b[i] = a[i];
  u8 x = vp_any<u8>();
  upd::tuple<F::e, F::s, u8, T[N], u8> t{x, a, x};
  upd::tuple<F::e, F::s, u8, std::array<T, N>, u8> s{x, b, x};
  constexpr std::size_t n = N * wire<T>::size + 2;
  vp_assert(t.size == n && s.size == n, "an array occupies its length times its element size");
  byte_t want[n];
  pack_all<F>(want, x, a, x);
  vp_assert(same(t.begin(), want, n), "a C array is its elements in index order");
  vp_assert(same(s.begin(), want, n), "a std::array is its elements in index order");
  auto ra = t.template get<1>();
  auto rb = s.template get<1>();
  vp_assert(ra.size() == N && rb.size() == N, "reading back keeps the length");
  vp_assert(wire<T[N]>::equal(a, ra) && wire<T[N]>::equal(a, rb), "reading back gives equal elements");
  vp_assert(t.template get<0>() == x && t.template get<2>() == x && s.template get<2>() == x, "neighbours are untouched");
  wire<T[N]>::log(a);
  T a2[N];
  wire<T[N]>::template any<F>(a2);
  t.template set<1>(a2);
  pack_all<F>(want, x, a2, x);
  vp_assert(same(t.begin(), want, n), "setting an array field");
  for (std::size_t i = 0; i < N; i++) b[i] = a2[i];
  upd::set<1>(s, b);
  vp_assert(same(s.begin(), want, n), "setting a std::array field");
  auto m = upd::make_tuple(upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}, a2);
  vp_assert(m.size == n - 2 && same(m.begin(), want + 1, n - 2), "make_tuple of an array");
  vp_cover("twin");
}
#ifdef C05
VP_CASE(i16x3) { SPEC_ALL_FORMATS(twin_case, i16, 3); }
VP_CASE(u8x1) { SPEC_ALL_FORMATS(twin_case, u8, 1); }
VP_CASE(boolx5) { SPEC_ALL_FORMATS(twin_case, bool, 5); }
VP_CASE(i32x2) { SPEC_ALL_FORMATS(twin_case, i32, 2); }
VP_CASE(llx2) { SPEC_ALL_FORMATS(twin_case, ll, 2); }
VP_CASE(charx7) { SPEC_ALL_FORMATS(twin_case, char, 7); }
VP_CASE(u16x4) { SPEC_ALL_FORMATS(twin_case, u16, 4); }
using n2 = std::array<i16, 2>;
using n22 = std::array<std::array<u16, 2>, 2>;
VP_CASE(nested) { SPEC_ALL_FORMATS(twin_case, n2, 3); }
VP_CASE(nested3) { SPEC_ALL_FORMATS(twin_case, n22, 2); }
VP_CASE(long1) { large_case<fmt<BE, OC>, u8, 260>(); }
VP_CASE(long2) { large_case<fmt<LE, OC>, i16, 130>(); }
VP_CASE(long3) { large_case<fmt<BE, TC>, ll, 33>(); }
VP_CASE(layout_nested) { SPEC_ALL_FORMATS(layout_case, u8, std::array<n2, 2>, i8[2], bool[3]); }
VP_CASE(bytes1) { SPEC_ALL_FORMATS(array_bytes, i16, 3); SPEC_ALL_FORMATS(array_bytes, n2, 2); }
VP_CASE(bytes2) { SPEC_ALL_FORMATS(array_bytes, bool, 3); SPEC_ALL_FORMATS(array_bytes, i32, 2); }
VP_CASE(bytes3) { SPEC_ALL_FORMATS(array_bytes, ll, 2); SPEC_ALL_FORMATS(array_bytes, u8, 9); SPEC_ALL_FORMATS(array_bytes, u32, 3); }
#endif
