// C35: the packet a key builds is a value.
#include "user.hpp"
#include "stream.hpp"
template<typename F> using mixed = ring<F, void(), i16(u8, i32), void(std::array<i16, 3>, bool), u8(vec, cached), void(const u16 &, const tiny &), void(std::array<u8, 300>)>;

template<typename P> void emit(const P &p, byte_t *out, std::size_t &n, std::size_t len, unsigned how) {
  n = 0;
  switch (how) {
  case 0: p.write_to(sink{out, &n, len}); break;
  case 1: { byte_t *it = out; p.write_to(it); n = len; break; }
  case 2: { std::vector<byte_t> v; p.write_to(std::back_inserter(v)); n = v.size(); for (std::size_t i = 0; i < n && i < len; i++) out[i] = v[i]; break; }
  default: p >> sink{out, &n, len};
  }
}
template<typename R, std::size_t I, typename Sig = typename R::template sig<I>> struct check;
template<typename R, std::size_t I, typename Ret, typename... As> struct check<R, I, Ret(As...)> {
  using F = typename R::format;
  using C = cb<I, Ret(As...)>;
  using vals = values<bare<As>...>;
  using idx = typename mkseq<sizeof...(As)>::type;
  using key_t = typename R::keyring::template key_t<typename C::handle>;
  static constexpr std::size_t L = R::isize + C::in;
  template<std::size_t... Is> static auto packet(const key_t &k, vals &v, seq<Is...>) -> decltype(k(pick<Is>::get(v)...)) { return k(pick<Is>::get(v)...); }
  // the arguments are gone once this returns
  static auto build(byte_t *want) -> decltype(packet(key_t{}, std::declval<vals &>(), idx{})) {
    vals *v = new vals;
    v->template any<F>();
    R::put_index(want, I);
    pack_values<F>(want + R::isize, *v);
    auto p = packet(R::template key<I>(), *v, idx{});
    v->template any<F>(); // changed, then destroyed
    delete v;
    return p;
  }
  static void expect(const decltype(packet(key_t{}, std::declval<vals &>(), idx{})) &p, const byte_t *want, unsigned how) {
    byte_t *got = new byte_t[L];
    std::size_t n;
    emit(p, got, n, L, how);
    vp_assert(n == L && same(got, want, L), "a packet holds the arguments it was built from, whatever becomes of them, and can be written any number of times");
    delete[] got;
  }
  static void run() {
    byte_t want[L], other[L];
    auto p = build(want);
    expect(p, want, 0);
    auto q = build(other);        // another packet of the same key
    switch (vp_choose(5)) {
    case 0: break;
    case 1: { auto m = std::move(p); expect(m, want, 0); expect(q, other, 0); vp_cover("moved packet"); return; }
    case 2: { auto m = std::move(p); p = std::move(q); expect(p, other, 0); expect(m, want, 0); vp_cover("assigned packet"); return; }
    case 3: { auto *m = new decltype(p)(std::move(p)); auto *o = new decltype(p)(std::move(q)); delete o; expect(*m, want, 0); delete m; return; }
    default: q = build(other);
    }
    unsigned a = vp_choose(4), b = vp_choose(4);
    expect(q, other, a);
    expect(p, want, b);
    expect(q, other, b);
    expect(p, want, a);
    vp_cover("packet");
  }
};
// interleaved with packets and responses of other keys
template<typename R> void several() {
  byte_t w0[check<R, 1>::L], w1[check<R, 2>::L], w2[check<R, 3>::L];
  auto a = check<R, 1>::build(w0);
  auto b = check<R, 2>::build(w1);
  auto c = check<R, 3>::build(w2);
  byte_t response[2];
  vp_sym_bytes(response, 2);
  i16 want, got = R::template key<1>().read_from(response);
  wire<i16>::unpack<typename R::format>(response, want);
  vp_assert(got == want, "reading a response while packets exist");
  check<R, 3>::expect(c, w2, 0);
  check<R, 1>::expect(a, w0, 0);
  check<R, 2>::expect(b, w1, 0);
  vp_cover("several");
}
using LT = fmt<LE, TC>; using BS = fmt<BE, SM>; using LO = fmt<LE, OC>; using BB = fmt<BE, OB>;
#define ALL(N, F) VP_CASE(packet0_##N) { check<mixed<F>, 0>::run(); } VP_CASE(packet1_##N) { check<mixed<F>, 1>::run(); } VP_CASE(packet2_##N) { check<mixed<F>, 2>::run(); } \
  VP_CASE(packet3_##N) { check<mixed<F>, 3>::run(); } VP_CASE(packet4_##N) { check<mixed<F>, 4>::run(); } VP_CASE(several_##N) { several<mixed<F>>(); }
ALL(LT, LT)
ALL(BS, BS)
ALL(LO, LO)
ALL(BB, BB)
VP_CASE(packet_long) { check<mixed<LT>, 5>::run(); }
