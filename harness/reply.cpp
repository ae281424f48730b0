// C18: forwarding a pending response as a request.
#include "stream.hpp"
#include "user.hpp"

template<std::size_t N> using arr = std::array<byte_t, N>;
template<typename F> using small = ring<F, void(), i16(u8), u32(), vec(bool)>;
// keyrings of the peer: byte arrays of many sizes, at several indices
template<typename F> using peers = ring<F, void(arr<1>), void(const arr<2> &), u8(arr<3>), void(const byte_t (&)[4]), void(arr<6>), void(arr<7>), i16(const byte_t (&)[8]), void(arr<16>)>;

// K: index of the peer's callback; N: its array size
template<typename R, typename P, std::size_t K, std::size_t N, typename D> void reply(bool separate, std::size_t what) {
  using F = typename R::format;
  session<R> s;
  journal j;
  new_pool<F>();
  rpc::start<F>(j);
  D d;
  packet<R> p, q;
  if (what <= R::n) { fill(p, what); put_all<R>(s, d, p); }      // R::n: an unknown packet; R::n + 1: nothing was received
  std::size_t drained = vp_choose(s.bottom + 1);
  for (std::size_t i = 0; i < drained; i++) get1(s, d);
  std::size_t part = 0;
  if (separate) {
    fill(q, 1);
    part = vp_choose(q.len);
    for (std::size_t i = 0; i < part; i++) put<R>(s, d, q.bytes[i]);
  }
  constexpr std::size_t L = P::isize + N;
  auto k = P::template key<K>();
  byte_t *out = new byte_t[L];
  std::size_t n = 0;
  for (std::size_t i = 0; i < L; i++) out[i] = 0x77;
  bool want = s.next == 0 && s.bottom <= N, got;
  unsigned form = vp_choose(3);
  if (form == 0) got = d.reply(sink{out, &n, L}, k);
  else if (form == 1) { auto f = [&](byte_t b) { if (n < L) out[n] = b; n++; }; got = d.reply(f, k); }
  else {
    got = d.reply(out, k);
    n = got ? L : 0;
    if (!got) for (std::size_t i = 0; i < L; i++) vp_assert(out[i] == 0x77, "a reply that does not happen writes nothing");
  }
  vp_assert(got == want, "a reply happens exactly when nothing was drained and the response fits");
  vp_assert(j == s.log, "replying calls nothing");
  if (want) {
    byte_t idx[4];
    P::put_index(idx, K);
    vp_assert(n == L, "a reply is a whole request packet");
    vp_assert(same(out, idx, P::isize), "a reply is a request for its key");
    vp_assert(same(out + P::isize, s.out, s.bottom), "a reply starts with the complete pending response");
    vp_assert_defined(out, L, "a reply has no byte of uninitialised memory");
    for (std::size_t i = 0; i < s.bottom; i++) vp_log(out[P::isize + i]);
    s.next = s.bottom;
    vp_assert(!d.is_loaded(), "a reply empties the output");
  } else {
    vp_assert(n == 0, "a reply that does not happen writes nothing");
    vp_assert(d.is_loaded() == s.loaded(), "a reply that does not happen changes nothing");
    if (vp_choose(2)) drain(s, d);
  }
  // and the session goes on
  if (!separate) { drain(s, d); fill(q, 1); }
  for (std::size_t i = part; i < q.len; i++) put<R>(s, d, q.bytes[i]);
  drain(s, d);
  vp_assert(j == s.log, "the session goes on");
  // what the peer does with it
  if (want) {
    plain<P, WEAK> peer;
    journal a, b;
    rpc::start<F>(a);
    const byte_t *r = out;
    byte_t sunk[8];
    std::size_t m = 0;
    std::size_t i = peer([&]() { return *r++; }, sink{sunk, &m, 8});
    P::expect(K, out + P::isize, b);
    vp_assert(i == K && a == b, "the peer's callback gets the payload of the reply");
  }
  delete[] out;
  vp_cover("reply");
}
template<typename R, typename P, typename D> void replies(bool separate, std::size_t what) {
  switch (vp_choose(P::n)) {
  case 0: reply<R, P, 0, 1, D>(separate, what); break;
  case 1: reply<R, P, 1, 2, D>(separate, what); break;
  case 2: reply<R, P, 2, 3, D>(separate, what); break;
  case 3: reply<R, P, 3, 4, D>(separate, what); break;
  case 4: reply<R, P, 4, 6, D>(separate, what); break;
  case 5: reply<R, P, 5, 7, D>(separate, what); break;
  case 6: reply<R, P, 6, 8, D>(separate, what); break;
  default: reply<R, P, 7, 16, D>(separate, what);
  }
}
#define X(N, FM, KIND, POLICY, SEP, WHAT) VP_CASE(N) { using F = FM; using R = small<F>; replies<R, peers<F>, KIND<R, POLICY>>(SEP, WHAT); }
typedef fmt<LE, TC> LT; typedef fmt<BE, SM> BS; typedef fmt<BE, OB> BB; typedef fmt<LE, OC> LO;
X(dv, LT, dbl, WEAK, true, 0) X(di, BS, dbl, ANY, true, 1) X(du, BB, dbl, WEAK, true, 2) X(de, LO, dbl, ANY, true, 3) X(dx, LT, dbl, WEAK, true, 4) X(dn, BB, dbl, WEAK, true, 5)
X(sv, BB, single, ANY, false, 0) X(si, LT, single, WEAK, false, 1) X(su, BS, single, ANY, false, 2) X(se, BB, single, WEAK, false, 3) X(sx, LO, single, ANY, false, 4) X(sn, LT, single, WEAK, false, 5)
// large responses and wide indices
template<std::size_t> using novoid = void();
template<typename S, typename F, typename... X> struct wide_impl;
template<std::size_t... Is, typename F, typename... X> struct wide_impl<seq<Is...>, F, X...> { using type = ring<F, novoid<Is>..., X...>; };
template<typename F> void large() {
  using R = ring<F, arr<256>(u8), arr<255>()>;
  using P = typename wide_impl<typename mkseq<256>::type, F, void(arr<255>), void(const arr<256> &), void(arr<300>)>::type;
  new_pool<F>();
  static journal j;
  j = journal{};
  rpc::start<F>(j);
  static dbl<R, WEAK> d;
  u8 x = vp_any<u8>();
  std::size_t r = vp_choose(2), resp = r ? 255 : 256;
  static byte_t want[256], out[310];
  R::respond(r, 0, want);
  auto s = d.put((byte_t)r);
  if (r == 0) s = d.put(x);
  vp_assert(is(s, RESOLVED), "resolved");
  std::size_t n = 0, k = vp_choose(3), N = k == 0 ? 255 : k == 1 ? 256 : 300;
  bool got = k == 0 ? d.reply(sink{out, &n, 310}, P::template key<256>()) : k == 1 ? d.reply(sink{out, &n, 310}, P::template key<257>()) : d.reply(sink{out, &n, 310}, P::template key<258>());
  vp_assert(got == (resp <= N), "a large reply happens exactly when it fits");
  if (got) {
    byte_t idx[2];
    P::put_index(idx, 256 + k);
    vp_assert(n == N + 2 && same(out, idx, 2) && same(out + 2, want, resp) && !d.is_loaded(), "a large reply");
    vp_assert_defined(out, n, "no byte of uninitialised memory");
  } else
    vp_assert(n == 0 && d.is_loaded() && d.get() == want[0], "a large reply that does not fit");
  vp_cover("large");
}
VP_CASE(large_le) { large<LT>(); }
VP_CASE(large_be) { large<BB>(); }
