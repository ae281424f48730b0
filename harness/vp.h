// Harness interface: implemented by the symbolic engine, and natively (vp_native.cpp) for replay.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint64_t vp_sym(unsigned bits);                 // unconstrained value of that many bits
void vp_sym_bytes(void *p, std::size_t n);           // n unconstrained bytes
void vp_assume(bool c);
void vp_assert(bool c, const char *msg);
void vp_cover(const char *name);                     // reachability witness
void vp_log(std::uint64_t x);                        // observation compared with native runs
unsigned vp_choose(unsigned n);                      // every value < n, explored separately
std::uint64_t vp_conc(std::uint64_t x);              // explore every value of x separately
void vp_assert_defined(const void *p, std::size_t n, const char *msg);
void vp_undef(void *p, std::size_t n);               // make bytes uninitialised
std::size_t vp_live();                               // live heap blocks
std::size_t vp_allocs();                             // heap allocations so far
}
template<typename T> inline T vp_any() { return static_cast<T>(vp_sym(8 * sizeof(T))); }
template<> inline bool vp_any<bool>() { return vp_sym(1) != 0; }
#define VP_CASE(NAME) extern "C" void vp_case_##NAME()
