// C19: replacing actions.
#include "stream.hpp"
#include "user.hpp"
template<typename F> using small = ring<F, void(), i16(u8), u8(i16, bool), void(u16)>;
template<typename F> using mixed = ring<F, ll(bool), vec(tiny), std::array<i16, 2>(std::array<u8, 3>, i8)>;

template<std::size_t Id, typename Sig> struct stateful;
template<std::size_t Id, typename R, typename... As> struct stateful<Id, R(As...)> {
  unsigned *calls;
  R operator()(As... as) { ++*calls; return cb<Id, R(As...)>::fn(as...); }
};
static unsigned g_stateful;

// every way of replacing action I of d by version V
constexpr bool is_any(upd::action_features p) { return p == ANY; }
template<typename R, std::size_t I, unsigned V, typename D> void replace_any(D &d, unsigned form, std::true_type) {
  using C = typename R::template other<I, V>;
  using F = typename R::format;
  switch (form) {
  case 2: d.template replace<I>(stateful<I + 1000 * V, typename R::template sig<I>>{&g_stateful}); break;
  case 3: d.template replace<I>(&C::fn); break;
  case 4: d.template replace<I>(C::fn); break;
  default: d[I] = upd::action{&C::fn, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
  }
}
template<typename R, std::size_t I, unsigned V, typename D> void replace_any(D &d, unsigned, std::false_type) {
  using C = typename R::template other<I, V>;
  using F = typename R::format;
  d[I] = upd::no_storage_action{typename C::handle{}, upd::endianess_h<F::e>{}, upd::signed_mode_h<F::s>{}};
}
template<typename R, std::size_t I, unsigned V, bool Any, typename D> void replace1(D &d, unsigned how) {
  using C = typename R::template other<I, V>;
  unsigned form = how < 100 ? how % (Any ? 6 : 3) : vp_choose(Any ? 6 : 3);
  if (form == 0) d.template replace<I>(typename C::handle{});
  else if (form == 1) {
#if __cplusplus >= 201703L
    d.template replace<I, C::fn>();
#else
    d.template replace<I>(typename C::handle{});
#endif
  } else replace_any<R, I, V>(d, form, std::integral_constant<bool, Any>{});
}
template<typename R, unsigned V, bool Any, typename D, typename S> void replace_one(D &d, S &s, unsigned how) {
  std::size_t i = vp_choose(R::n);
  switch (i) {
  case 0: replace1<R, 0, V, Any>(d, how); break;
  case 1: replace1<R, 1, V, Any>(d, how); break;
  case 2: replace1<R, 2, V, Any>(d, how); break;
  default: replace1<R, R::n - 1, V, Any>(d, how);
  }
  s.which[i] = V;
}
template<typename R, bool Any, typename D> void replacing(bool separate, bool twice) {
  using F = typename R::format;
  session<R, 64, 64, true> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  packet<R> p, q;
  fill(p, 1);
  put_all<R>(s, d, p);                              // a pending response
  if (!separate) drain(s, d);
  fill(q, twice ? 2 : vp_choose(R::n));
  std::size_t cut = vp_choose(q.len);
  for (std::size_t i = 0; i < cut; i++) put<R>(s, d, q.bytes[i]);
#ifdef ALLFORMS
  const unsigned how = 100;
#else
  const unsigned how = cut + q.k;
#endif
  replace_one<R, 1, Any>(d, s, how);
  vp_assert(d.is_loaded() == s.loaded(), "replacing keeps the pending response");
  if (twice) { if (separate) get1(s, d); replace_one<R, 2, Any>(d, s, cut); }
  for (std::size_t i = cut; i < q.len; i++) put<R>(s, d, q.bytes[i]);
  drain(s, d);
  vp_assert(j == s.log, "a request being received is completed");
  for (std::size_t k = 0; k < R::n; k++) {
    fill(p, k);
    put_all<R>(s, d, p);
    drain(s, d);
  }
  vp_assert(j == s.log, "packets for a replaced action call the new callback, the others are not affected");
  vp_cover("replacing");
}
template<typename R, bool Any, typename D> void replacing_plain(bool twice) {
  using F = typename R::format;
  session<R, 64, 64, true> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  packet<R> p;
  for (unsigned round = 0; round < (twice ? 3 : 2); round++) {
    if (round == 1) replace_one<R, 1, Any>(d, s, 100);
    if (round == 2) replace_one<R, 2, Any>(d, s, 1);
    for (std::size_t k = 0; k < R::n; k++) {
      if (twice && round && k == 0) continue;
      fill(p, k);
      for (std::size_t i = 0; i < p.len; i++) s.put(p.bytes[i]);
      byte_t out[64];
      std::size_t n = 0, m = 0;
      vp_assert(d(source{p.bytes, &n}, sink{out, &m, 64}) == k && n == p.len, "a dispatcher consumes the packet");
      vp_assert(j == s.log, "packets for a replaced action call the new callback, the others are not affected");
      vp_assert(m == s.bottom && same(out, s.out, m), "and answer with its result");
      vp_assert(d[k].input_size() == R::in(k) && d[k].output_size() == R::out(k), "the wire format is unchanged");
    }
  }
  vp_cover("replacing plain");
}
typedef fmt<LE, TC> LT; typedef fmt<BE, SM> BS; typedef fmt<BE, OB> BB; typedef fmt<LE, OC> LO;
VP_CASE(dbl_any) { using R = small<LT>; replacing<R, true, dbl<R, ANY>>(true, false); }
VP_CASE(dbl_weak) { using R = small<BS>; replacing<R, false, dbl<R, WEAK>>(true, false); }
VP_CASE(sgl_any) { using R = small<BB>; replacing<R, true, single<R, ANY>>(false, false); }
VP_CASE(sgl_weak) { using R = small<LO>; replacing<R, false, single<R, WEAK>>(false, false); }
VP_CASE(cust_any) { using R = mixed<LT>; replacing<R, true, custom<plain<R, ANY>, 64, 64>>(true, false); }
VP_CASE(cust_weak) { using R = mixed<BS>; replacing<R, false, custom<plain<R, WEAK>, 64, 64>>(true, false); }
VP_CASE(twice_weak) { using R = small<BB>; replacing<R, false, dbl<R, WEAK>>(true, true); }
VP_CASE(twice_any) { using R = small<LO>; replacing<R, true, single<R, ANY>>(false, true); }
VP_CASE(plain_any) { using R = small<BB>; replacing_plain<R, true, plain<R, ANY>>(false); }
VP_CASE(plain_weak) { using R = small<LO>; replacing_plain<R, false, plain<R, WEAK>>(false); }
VP_CASE(plain_any2) { using R = mixed<LT>; replacing_plain<R, true, plain<R, ANY>>(false); }
VP_CASE(plain_weak2) { using R = mixed<BS>; replacing_plain<R, false, plain<R, WEAK>>(true); }
// a wide keyring: replaced actions on both sides of 256
template<std::size_t> using novoid = void();
template<typename S, typename F, typename... X> struct wide_impl;
template<std::size_t... Is, typename F, typename... X> struct wide_impl<seq<Is...>, F, X...> { using type = ring<F, novoid<Is>..., X...>; };
template<typename F> void wide() {
  using R = typename wide_impl<typename mkseq<256>::type, F, u8(u8), void(i16)>::type;
  static plain<R, WEAK> d;
  using N0 = cb<3000, void()>; using N1 = cb<3001, u8(u8)>;
  unsigned which = vp_choose(3);
  if (which == 0) d.template replace<0>(typename N0::handle{});
  else if (which == 1) d.template replace<255>(typename N0::handle{});
  else d.template replace<256>(typename N1::handle{});
  const std::size_t replaced = which == 0 ? 0 : which == 1 ? 255 : 256;
  new_pool<F>();
  for (std::size_t k : {0, 1, 255, 256, 257}) {
    packet<R> p;
    fill(p, k);
    journal j;
    rpc::start<F>(j);
    std::size_t n = 0, m = 0;
    byte_t out[4];
    vp_assert(d(source{p.bytes, &n}, sink{out, &m, 4}) == k && n == p.len && j.calls == 1, "dispatched");
    vp_assert(j.data[0] + 256u * j.data[1] == (k != replaced ? k : which == 2 ? 3001 : 3000), "only the replaced action is replaced");
  }
  vp_cover("wide");
}
VP_CASE(wide_le) { wide<LT>(); }
VP_CASE(wide_be) { wide<BB>(); }
