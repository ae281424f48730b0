// C28: the index type of keyrings too large to be compiled here. Uses a name internal to the library,
// so this unit is left out (and reported as such) if that name goes away.
#include "spec.hpp"
#include <upd/keyring.hpp>
template<unsigned long long N> void width(std::size_t want) {
  using T = upd::detail::smallest_unsigned_t<N>;
  vp_assert(std::is_unsigned<T>::value && sizeof(T) == want, "the index type is the smallest standard unsigned type that can hold the number of callbacks");
  vp_cover("width");
}
VP_CASE(width) {
  width<1>(1); width<254>(1); width<255>(1); width<256>(2); width<257>(2); width<65534>(2); width<65535>(2); width<65536>(4); width<65537>(4); width<4294967295>(4);
}
