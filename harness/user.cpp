// C06: user-extended types as fields, array elements, behind views, in assignments and invocations.
#include "user.hpp"
#include "layout.hpp"

using vec2 = vec[2];
using cached3 = cached[3];
using avec2 = std::array<vec, 2>;
using atiny2 = std::array<tiny, 2>;
using acached2 = std::array<cached, 2>;
VP_CASE(field_vec) { SPEC_ALL_FORMATS(layout_case, u8, vec, i16); }
VP_CASE(field_cached) { SPEC_ALL_FORMATS(layout_case, u8, cached, i16); }
VP_CASE(field_tiny) { SPEC_ALL_FORMATS(layout_case, u16, tiny, i8); }
VP_CASE(field_outer) { SPEC_ALL_FORMATS(layout_case, u8, outer, i16, withar); }
VP_CASE(field_mixed) { SPEC_ALL_FORMATS(layout_case, tiny, cached, bool, vec, tiny); }
VP_CASE(array_c) { layout_case<fmt<LE, TC>, u8, vec2, i16>(); layout_case<fmt<BE, OB>, u8, cached3, i16>(); layout_case<fmt<BE, OC>, u8, tiny[2], i16>(); }
VP_CASE(array_std) { layout_case<fmt<LE, SM>, u8, avec2, i16>(); layout_case<fmt<BE, TC>, u8, acached2, i16>(); layout_case<fmt<LE, OB>, u8, atiny2, i16>(); }
VP_CASE(array_bytes1) { array_bytes<fmt<LE, TC>, vec, 2>(); array_bytes<fmt<BE, SM>, tiny, 3>(); array_bytes<fmt<BE, OB>, cached, 2>(); }
#define UVIEWS(C)                                                                                                      \
  views<fmt<LE, TC>, C, u8, vec, i16>::run(); views<fmt<BE, OC>, C, u8, cached, i16>::run();                           \
  views<fmt<LE, SM>, C, u8, tiny, i16>::run(); views<fmt<BE, TC>, C, cached, atiny2, outer>::run()
VP_CASE(raw) { UVIEWS(raw_c); }
VP_CASE(vec) { UVIEWS(vec_c); }
VP_CASE(list) { UVIEWS(list_c); }
VP_CASE(flist) { UVIEWS(flist_c); }
VP_CASE(deque) { UVIEWS(deque_c); }
VP_CASE(rev) { UVIEWS(rev_c); }
VP_CASE(stride) { UVIEWS(stride_c); }

template<typename FS, typename FD>
void assign() {
  u8 x = vp_any<u8>(); vec v; cached c; tiny t; atiny2 a; vec w[2] = {};
  wire<vec>::any<FS>(v); wire<cached>::any<FS>(c); wire<tiny>::any<FS>(t); wire<atiny2>::any<FS>(a);
  vp_assume(wire<vec>::rep(v, FD::s));
  upd::tuple<FS::e, FS::s, u8, vec, cached, tiny, atiny2> s{x, v, c, t, a};
  upd::tuple<FD::e, FD::s, u8, vec, cached, tiny, atiny2> d;
  constexpr std::size_t n = 1 + 7 + 2 + 3 + 6;
  byte_t ws[n], wd[n];
  pack_all<FS>(ws, x, v, c, t, a);
  pack_all<FD>(wd, x, v, c, t, a);
  d = std::move(s);
  vp_assert(same(d.begin(), wd, n), "assignment converts extended types member by member");
  vp_assert(same(s.begin(), ws, n), "the source is unchanged");
  std::list<byte_t> l(n + 1);
  byte_t g = vp_any<u8>();
  l.back() = g;
  upd::tuple_view<std::list<byte_t>::iterator, FD::e, FD::s, u8, vec, cached, tiny, atiny2> lv{l.begin()};
  lv = std::move(s);
  vp_assert(same_it(l.begin(), wd, n) && l.back() == g, "assignment to a list view");
  int calls = 0;
  bool ok = false;
  lv.invoke([&](u8 x2, const vec &v2, cached c2, tiny &&t2, atiny2 a2) {
    calls++;
    ok = (x == x2) & wire<vec>::equal(v, v2) & wire<cached>::equal(c, c2) & wire<tiny>::equal(t, t2) & wire<atiny2>::equal(a, a2);
  });
  vp_assert(calls == 1 && ok, "invoking passes the extended values");
  (void)w;
  vp_cover("assign");
}
VP_CASE(assign) { assign<fmt<LE, TC>, fmt<BE, SM>>(); assign<fmt<BE, OB>, fmt<LE, OC>>(); assign<fmt<LE, TC>, fmt<BE, TC>>(); }
