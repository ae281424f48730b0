// Layout and view checks generic over field types.
#pragma once
#include "spec.hpp"
#include <upd/tuple.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <vector>
using namespace spec;
using upd::byte_t;
using i8 = std::int8_t; using u8 = std::uint8_t; using i16 = std::int16_t; using u16 = std::uint16_t;
using i32 = std::int32_t; using u32 = std::uint32_t;
typedef long long ll;

#define DUMMY(...) do { int d[] = {0, (__VA_ARGS__, 0)...}; (void)d; } while (0)

// ---------------------------------------------------------------- C04 and C05
template<typename F, typename... Ts>
struct layout {
  using tup = upd::tuple<F::e, F::s, Ts...>;
  static constexpr std::size_t N = sum_size<Ts...>::value;
  template<std::size_t I> static void one(values<Ts...> &v, values<Ts...> &w) {
    using T = typename nth<I, Ts...>::type;
    constexpr std::size_t o = off<I, Ts...>::value, n = wire<T>::size;
    tup t = build(v, typename mkseq<sizeof...(Ts)>::type{});
    byte_t before[N + 1], want[n + 1];
    std::memcpy(before, t.begin(), N);
    wire<T>::template pack<F>(want, pick<I>::get(w));
    t.template set<I>(pick<I>::get(w));
    vp_assert(same(t.begin() + o, want, n), "a field is stored at the sum of the sizes of the previous fields");
    vp_assert(same(t.begin(), before, o) && same(t.begin() + o + n, before + o + n, N - o - n), "setting a field changes no other byte");
    vp_assert(eq(pick<I>::get(w), t.template get<I>()), "a field reads back as the last value set");
    t.template set<I>(pick<I>::get(v));
    vp_assert(same(t.begin(), before, N), "setting a field back restores the bytes");
    vp_assert(eq(pick<I>::get(v), upd::get<I>(t)), "a field reads back as the last value set (free get)");
    upd::set<I>(t, pick<I>::get(w));
    vp_assert(same(t.begin() + o, want, n), "the free set function writes the same bytes as the member");
  }
  template<std::size_t... Is> static tup build(values<Ts...> &v, seq<Is...>) { return tup{pick<Is>::get(v)...}; }
  template<std::size_t... Is> static void all(seq<Is...> s) {
    values<Ts...> v, w;
    v.template any<F>();
    tup t = build(v, s);
    byte_t want[N + 1];
    pack_values<F>(want, v);
    vp_assert(tup::size == N, "the size of a tuple is the sum of the sizes of its fields");
    vp_assert(sizeof(tup) == N, "no padding");
    vp_assert(t.end() - t.begin() == (std::ptrdiff_t)N, "iterating exposes exactly size bytes");
    const tup &ct = t;
    vp_assert(ct.begin() == t.begin() && ct.end() == t.end() && t.src() == t.begin() && ct.src() == t.begin(), "const and non-const iteration expose the same bytes");
    vp_assert(same(t.begin(), want, N), "fields are packed in declaration order without padding");
    std::size_t k = 0; unsigned d = 0;
    for (byte_t b : t) { vp_log(b); d |= (unsigned)(b ^ want[k++]); }
    vp_assert(k == N && d == 0, "iteration yields the stored bytes");
    for (std::size_t i = 0; i < N; i++) d |= (unsigned)((t[i] ^ want[i]) | (ct[i] ^ want[i]));
    vp_assert(d == 0, "indexing yields the stored bytes");
    bool r = true;
    DUMMY(r &= eq(pick<Is>::get(v), ct.template get<Is>()));
    vp_assert(r, "every field reads back as constructed");
    tup c = t;                       // copies are independent
    w.template any<F>();
    DUMMY(one<Is>(v, w));
    DUMMY(c.template set<Is>(pick<Is>::get(w)));
    vp_assert(same(t.begin(), want, N), "changing a copy leaves the original unchanged");
    pack_values<F>(want, w);
    vp_assert(same(c.begin(), want, N), "setting all the fields one after the other gives all the new values");
    t = c;
    vp_assert(same(t.begin(), want, N) && same(c.begin(), want, N), "copy assignment");
    // the fields see bytes written through iteration and indexing
    byte_t raw[N + 1];
    vp_sym_bytes(raw, N);
    k = 0;
    for (byte_t &b : t) b = raw[k++];
    for (std::size_t i = 0; i < N; i++) c[i] = raw[i];
    DUMMY(bytes<Is>(raw, t, c));
    vp_cover("layout");
  }
  template<std::size_t I> static void bytes(byte_t *raw, tup &t, tup &c) {
    using T = typename nth<I, Ts...>::type;
    T x;
    wire<T>::template unpack<F>(raw + off<I, Ts...>::value, x);
    vp_assert(eq(x, t.template get<I>()) && eq(x, c.template get<I>()), "fields decode the bytes written by iteration or indexing");
  }
  static void run() { all(typename mkseq<sizeof...(Ts)>::type{}); }
};
template<typename F, typename... Ts> void layout_case() { layout<F, Ts...>::run(); }

// A minimal forward iterator over every second byte of a buffer.
struct stride_it {
  using iterator_category = std::forward_iterator_tag;
  using value_type = byte_t; using difference_type = std::ptrdiff_t; using pointer = byte_t *; using reference = byte_t &;
  byte_t *p;
  byte_t &operator*() const { return *p; }
  stride_it &operator++() { p += 2; return *this; }
  stride_it operator++(int) { auto c = *this; p += 2; return c; }
  bool operator==(const stride_it &o) const { return p == o.p; }
  bool operator!=(const stride_it &o) const { return p != o.p; }
};
// Containers of N bytes
template<std::size_t N> struct raw_c { byte_t d[N]; byte_t *begin() { return d; } };
template<std::size_t N> struct vec_c { std::vector<byte_t> d; vec_c() : d(N) {} std::vector<byte_t>::iterator begin() { return d.begin(); } };
template<std::size_t N> struct list_c { std::list<byte_t> d; list_c() : d(N) {} std::list<byte_t>::iterator begin() { return d.begin(); } };
template<std::size_t N> struct flist_c { std::forward_list<byte_t> d; flist_c() : d(N) {} std::forward_list<byte_t>::iterator begin() { return d.begin(); } };
template<std::size_t N> struct deque_c { std::deque<byte_t> d; deque_c() : d(N) {} std::deque<byte_t>::iterator begin() { return d.begin(); } };
template<std::size_t N> struct rev_c { byte_t d[N]; std::reverse_iterator<byte_t *> begin() { return std::reverse_iterator<byte_t *>(d + N); } };
template<std::size_t N> struct stride_c { byte_t d[2 * N]; stride_it begin() { return stride_it{d}; } };
template<std::size_t N> struct array_c { std::array<byte_t, N> d; typename std::array<byte_t, N>::iterator begin() { return d.begin(); } };

constexpr std::size_t G = 2;
template<typename It> void load(It it, const byte_t *b, std::size_t n) { for (std::size_t i = 0; i < n; i++) *it++ = b[i]; }

// ---------------------------------------------------------------- C07
template<typename F, template<std::size_t> class Cont, typename... Ts>
struct views {
  static constexpr std::size_t n = sum_size<Ts...>::value, M = n + 2 * G;
  using C = Cont<M>;
  using It = decltype(std::declval<C &>().begin());
  using V = upd::tuple_view<It, F::e, F::s, Ts...>;
  template<std::size_t I> static void one(C &c, V &v, byte_t *model) {
    using T = typename nth<I, Ts...>::type;
    constexpr std::size_t o = G + off<I, Ts...>::value;
    T x;
    wire<T>::template unpack<F>(model + o, x);
    vp_assert(wire<T>::equal(x, v.template get<I>()), "a view reads what the bytes currently encode");
    vp_assert(wire<T>::equal(x, upd::get<I>(v)), "a view reads what the bytes currently encode (free get)");
    wire<T>::template any<F>(x);
    v.template set<I>(x);
    wire<T>::template pack<F>(model + o, x);
    vp_assert(same_it(c.begin(), model, M), "a view writes exactly the bytes of the field");
    vp_assert(wire<T>::equal(x, v.template get<I>()), "a view reads the value set");
    wire<T>::template any<F>(x);
    upd::set<I>(v, x);
    wire<T>::template pack<F>(model + o, x);
    vp_assert(same_it(c.begin(), model, M), "a view writes exactly the bytes of the field (free set)");
  }
  template<std::size_t... Is> static void all(seq<Is...>) {
    C *c = new C;
    byte_t model[M];
    vp_sym_bytes(model, M);
    load(c->begin(), model, M);
    It at = std::next(c->begin(), G);
    auto v = upd::make_view<Ts...>(upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}, at);
    vp_assert(std::is_same<decltype(v), V>::value, "make_view has the requested format");
    vp_assert(v.size == n, "a view spans its announced size");
    vp_assert(v.begin() == at && v.src() == at && v.end() == std::next(at, n), "a view spans exactly its announced size");
    vp_assert(same_it(v.begin(), model + G, n), "iterating a view exposes exactly its bytes");
    vp_assert(same_it(c->begin(), model, M), "binding a view changes nothing");
    DUMMY(one<Is>(*c, v, model));
    // the storage changes behind the view
    byte_t b[M];
    vp_sym_bytes(b, M);
    load(c->begin(), b, M);
    DUMMY(one<Is>(*c, v, b));
    for (std::size_t i = 0; i < M; i++) vp_log(b[i]);
    V copy = v, direct{at};
    DUMMY(one<Is>(*c, copy, b));
    DUMMY(one<Is>(*c, direct, b));
    delete c;
    vp_cover("view");
  }
  static void run() { all(typename mkseq<sizeof...(Ts)>::type{}); }
};
#define VIEWS(C)                                                                                                       \
  views<fmt<LE, SM>, C, u8, i32, bool>::run(); views<fmt<BE, OC>, C, i16, u8, std::array<i16, 2>, i8>::run();          \
  views<fmt<LE, TC>, C, u16, ll, u8>::run(); views<fmt<BE, OB>, C, bool, i16[2], u32>::run();                          \
  views<fmt<BE, TC>, C, i8>::run()

// element i is decoded from slot i whatever the bytes
template<typename F, typename T, std::size_t N>
void array_bytes() {
  constexpr std::size_t n = N * wire<T>::size;
  byte_t *buf = new byte_t[n];
  vp_sym_bytes(buf, n);
  upd::tuple_view<const byte_t *, F::e, F::s, T[N]> v{buf};
  upd::tuple_view<byte_t *, F::e, F::s, std::array<T, N>> w{buf};
  auto a = v.template get<0>();
  auto b = w.template get<0>();
  T x[N];
  wire<T[N]>::template unpack<F>(buf, x);
  vp_assert(wire<T[N]>::equal(x, a), "array elements decode from their own slots");
  vp_assert(wire<T[N]>::equal(x, b), "std::array elements decode from their own slots");
  delete[] buf;
  vp_cover("array bytes");
}
