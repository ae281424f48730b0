// C29: a keyring of 257 callbacks (its index takes two bytes) exposed to Python.
#include "stream.hpp"
#include <upd/python.hpp>
namespace pb = pybind11;
using pb::object;

static unsigned g_called, g_calls, g_arg;
#define EACH(X, a) X(a##0) X(a##1) X(a##2) X(a##3) X(a##4) X(a##5) X(a##6) X(a##7) X(a##8) X(a##9) X(a##A) X(a##B) X(a##C) X(a##D) X(a##E) X(a##F)
#define ALL(X) EACH(X, 0) EACH(X, 1) EACH(X, 2) EACH(X, 3) EACH(X, 4) EACH(X, 5) EACH(X, 6) EACH(X, 7) EACH(X, 8) EACH(X, 9) EACH(X, A) EACH(X, B) EACH(X, C) EACH(X, D) EACH(X, E) EACH(X, F)
#define DEFINE(x) void w##x() { g_called = 0x##x; g_calls++; }
#define HANDLE(x) upd::unevaluated<void (*)(), w##x>,
ALL(DEFINE)
u16 last(u16 a) { g_called = 256; g_calls++; g_arg = a; return (u16)(a ^ 0x0f00); }

template<endianess E, signed_mode S> using keyring = upd::keyring<E, S, ALL(HANDLE) upd::unevaluated<u16 (*)(u16), last>>;

template<endianess E> void put16(byte_t *out, unsigned v) { out[E == BE ? 0 : 1] = (byte_t)(v >> 8); out[E == BE ? 1 : 0] = (byte_t)v; }
inline bool is_bytes(const object &o, const byte_t *p, std::size_t n) { return o.p->k == pb::model::BYTES && o.p->len == n && same(o.p->bytes, p, n); }

template<endianess E, signed_mode S> void wide() {
  pb::module unpadded, mod;
  pb::class_<upd::action>{unpadded, "_Action"};
  pb::enum_<upd::packet_status>{unpadded, "PacketStatus"};
  upd::py::declare_dispatcher(mod, "Dispatcher", keyring<E, S>{});
  const char *const names[] = {"w00", "wFE", "wFF", "last"};
  const unsigned ids[] = {0, 254, 255, 256};
  byte_t want[4];
  for (int i = 0; i < 4; i++) {
    object k = mod.attr(names[i]);
    vp_assert(pb::cast<unsigned>(k.attr("index")()) == ids[i], "an exposed key reports its index");
    put16<E>(want, ids[i]);
    if (i < 3) vp_assert(is_bytes(k.attr("encode")(), want, 2), "encode gives exactly the packet of the key");
  }
  object k = mod.attr("last"), d = mod.attr("Dispatcher")();
  for (int turn = 0; turn < 3; turn++) {
    u16 a = vp_any<u16>(), was = g_calls;
    put16<E>(want, 256);
    put16<E>(want + 2, a);
    object packet = k.attr("encode")(a);
    vp_assert(is_bytes(packet, want, 4), "encode gives exactly the packet of the key");
    for (int i = 0; i < 4; i++) d.attr("put")((int)want[i]);
    vp_assert(turn == 1 ? g_calls == was : g_calls == was + 1u && g_called == 256 && g_arg == a, "exactly the addressed callback is called with the arguments of the packet");
    byte_t res[2];
    for (int i = 0; i < 2; i++) res[i] = pb::cast<byte_t>(d.attr("get")());
    u16 r = turn == 1 ? (u16)(a + 1) : (u16)(a ^ 0x0f00);
    byte_t bytes[2];
    put16<E>(bytes, r);
    vp_assert(same(res, bytes, 2) && !pb::cast<bool>(d.attr("is_loaded")()), "the response is that of the callback");
    vp_assert(pb::cast<u16>(k.attr("decode")(object{pb::bytes{(const char *)res, 2}})) == r, "decode gives the value of the response");
    vp_log(r);
    put16<E>(want, turn * 127);
    was = g_calls;
    for (int i = 0; i < 2; i++) d.attr("put")((int)want[i]);
    vp_assert(g_calls == was + 1u && g_called == turn * 127u, "other callbacks stay in place");
    if (turn == 0) d.attr("replace")(k, pb::cpp_function([](int x) { return (x + 1) & 0xffff; }));
    else if (turn == 1) { d.attr("replace")(k, pb::cpp_function([](int x) { return (int)last((u16)x); })); }
  }
  vp_cover("wide");
}
VP_CASE(wide_be) { wide<BE, TC>(); }
VP_CASE(wide_le) { wide<LE, OB>(); }
