// C28: indices.
#include "spec.hpp"
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
using namespace spec;
using upd::byte_t;

struct sink { byte_t *p; std::size_t *n; std::size_t max; void operator()(byte_t b) { if (*n < max) p[*n] = b; ++*n; } };
struct source { const byte_t *p; std::size_t *n; byte_t operator()() { ++*n; return *p++; } };
static u64 g_called;
static unsigned g_calls;
template<std::size_t I> void f() { g_called = I; g_calls++; }
template<std::size_t I> void g() { g_called = I + 100000; g_calls++; }
template<void (*Fn)()> using handle = upd::unevaluated<void (*)(), Fn>;

template<typename F, typename S> struct ring_impl;
template<typename F, std::size_t... Is> struct ring_impl<F, seq<Is...>> {
  using keyring = upd::keyring<F::e, F::s, handle<&f<Is>>...>;
  static constexpr std::size_t n = sizeof...(Is);
  static constexpr std::size_t isize = n <= 0xff ? 1 : n <= 0xffff ? 2 : 4;
  // what each key says and sends
  template<std::size_t I> static void key() {
    auto k = keyring{}.get(handle<&f<I>>{});
    vp_assert(k.index == I, "the keys have the indices 0 to n-1 in declaration order");
    vp_assert(sizeof(typename decltype(k)::index_t) == isize && std::is_unsigned<typename decltype(k)::index_t>::value, "the index type of a key is that of the keyring");
    byte_t want[isize], got[isize];
    put(want, I, isize, F::e);
    std::size_t m = 0;
    k().write_to(sink{got, &m, isize});
    vp_assert(m == isize && same(want, got, isize), "a key sends its index");
  }
  static void keys() {
    vp_assert(std::is_unsigned<typename keyring::index_t>::value && sizeof(typename keyring::index_t) == isize, "the index type is the smallest standard unsigned type that can hold the number of callbacks");
    vp_assert(keyring::size == n, "the size of a keyring");
    int d[] = {0, (key<Is>(), 0)...}; (void)d;
    vp_cover("keys");
  }
  // any index, the known ones one by one
  static u64 received(byte_t *in) {
    u64 i = word(in, isize, F::e);
    if (i < n) {
      i = vp_conc(i);
      put(in, i, isize, F::e);
    }
    return i;
  }
  // what any received index does
  template<typename D> static void receive() {
    D d;
    vp_assert(sizeof(typename D::index_t) == isize && d.size == n, "both sides agree on the index type");
    byte_t in[isize], out[1];
    vp_sym_bytes(in, isize);
    u64 i = received(in);
    std::size_t m = 0, o = 0;
    auto *a = d.get_action(source{in, &m});
    vp_assert(m == isize, "an index is read whole");
    vp_assert((a != nullptr) == (i < n), "an action for every index below n, and no other");
    g_calls = 0;
    m = 0;
    typename D::index_t r = d(source{in, &m}, sink{out, &o, 0});
    vp_assert(r == i && m == isize && o == 0, "the index received is returned");
    vp_assert(g_calls == (i < n), "an index below n is answered by one callback");
    if (i < n) {
      vp_assert(g_called == i, "each index reaches its own callback");
      g_called = ~0ull;
      (*a)(source{in, &m}, sink{out, &o, 0});
      vp_assert(g_called == i, "the action of an index calls its callback");
      g_called = ~0ull;
      d[(typename D::index_t)i](source{in, &m}, sink{out, &o, 0});
      vp_assert(g_called == i && g_calls == 3, "indexing reaches the same callback");
      vp_log(g_called);
      vp_cover("known index");
    } else vp_cover("unknown index");
  }
  template<typename D> static void buffered() {
    D d;
    byte_t in[isize];
    vp_sym_bytes(in, isize);
    u64 i = received(in);
    g_calls = 0;
    upd::packet_status s{};
    for (byte_t b : in) s = d.put(b);
    vp_assert(s == (i < n ? upd::packet_status::RESOLVED_PACKET : upd::packet_status::DROPPED_PACKET) && g_calls == (i < n), "an index below n resolves, any other is dropped");
    if (i < n) vp_assert(g_called == i, "each index reaches its own callback");
    vp_cover("buffered");
  }
  using weak = upd::dispatcher<keyring, upd::action_features::WEAK_REFERENCE>;
  using any = upd::dispatcher<keyring, upd::action_features::ANY>;
  // replacing one of them keeps the others
  template<std::size_t I> static void replaced() {
    weak d;
    d.template replace<I>(handle<&g<I>>{});
    byte_t in[isize], out[1];
    vp_sym_bytes(in, isize);
    u64 i = received(in);
    std::size_t m = 0, o = 0;
    g_calls = 0;
    d(source{in, &m}, sink{out, &o, 0});
    if (i < n) vp_assert(g_calls == 1 && g_called == (i == I ? I + 100000 : i), "indices are stable");
    vp_cover("replaced");
  }
};
template<typename F, std::size_t N> using ring = ring_impl<F, typename mkseq<N>::type>;
typedef fmt<BE, TC> FB; typedef fmt<LE, OB> FL;

#define RING(N)                                                                                                        \
  VP_CASE(keys_##N) { ring<FB, N>::keys(); ring<FL, N>::keys(); }                                                      \
  VP_CASE(receive_##N) { ring<FB, N>::receive<ring<FB, N>::weak>(); }                                                  \
  VP_CASE(receive_le_##N) { ring<FL, N>::receive<ring<FL, N>::weak>(); }                                               \
  VP_CASE(buffered_##N) { ring<FB, N>::buffered<upd::single_buffered_dispatcher<ring<FB, N>::weak>>(); }               \
  VP_CASE(dbl_##N) { ring<FL, N>::buffered<upd::double_buffered_dispatcher<ring<FL, N>::weak>>(); }                    \
  VP_CASE(replaced_##N) { ring<FB, N>::replaced<N - 1>(); } VP_CASE(replaced_le_##N) { ring<FL, N>::replaced<0>(); } VP_CASE(replaced_mid_##N) { ring<FL, N>::replaced<N / 2>(); }
#define RING_ANY(N)                                                                                                    \
  VP_CASE(any_##N) { ring<FB, N>::receive<ring<FB, N>::any>(); } VP_CASE(anybuf_##N) { ring<FL, N>::buffered<upd::double_buffered_dispatcher<ring<FL, N>::any>>(); }
RING(1) RING_ANY(1)
RING(3) RING_ANY(3)
RING(256)
#ifndef FEW
RING(255)
RING(257)
#endif
#ifdef MORE
RING(2) RING_ANY(2) RING(7) RING(254) RING_ANY(255) RING_ANY(256) RING(300) RING_ANY(257) RING(513)
#endif
