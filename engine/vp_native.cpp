// Native side of vp.h: inputs are read in order from the file named by argv[2].
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <vector>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VP_MSAN 1
#endif
#endif
static std::vector<std::uint64_t> g_in;
static std::size_t g_pos, g_allocs, g_live;
static void load(const char *path) {
  std::FILE *f = std::fopen(path, "r");
  if (!f) std::exit(90);
  unsigned long long x;
  while (std::fscanf(f, "%llu", &x) == 1) g_in.push_back(x);
  std::fclose(f);
}
static std::uint64_t next() {
  if (g_pos >= g_in.size()) { std::printf("VP_INPUTS_EXHAUSTED\n"); std::fflush(stdout); std::_Exit(78); }
  return g_in[g_pos++];
}
extern "C" {
std::uint64_t vp_sym(unsigned bits) { std::uint64_t x = next(); return bits >= 64 ? x : x & ((1ull << bits) - 1); }
void vp_sym_bytes(void *p, std::size_t n) { for (std::size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(); }
void vp_assume(bool c) { if (!c) { std::printf("VP_ASSUME_FALSE\n"); std::fflush(stdout); std::_Exit(77); } }
void vp_assert(bool c, const char *msg) {
  if (!c) { std::printf("VP_ASSERT_FAIL %s\n", msg); std::fflush(stdout); std::_Exit(66); }
}
void vp_cover(const char *) {}
void vp_log(std::uint64_t x) { std::printf("LOG %llu\n", (unsigned long long)x); }
unsigned vp_choose(unsigned) { return (unsigned)next(); }
std::uint64_t vp_conc(std::uint64_t x) { return x; }
void vp_assert_defined(const void *p, std::size_t n, const char *msg) {
#ifdef VP_MSAN
  if (__msan_test_shadow(p, n) >= 0) { std::printf("VP_ASSERT_FAIL %s\n", msg); std::fflush(stdout); std::_Exit(66); }
#else
  (void)p; (void)n; (void)msg;
#endif
}
void vp_undef(void *p, std::size_t n) {
#ifdef VP_MSAN
  __msan_poison(p, n);
#else
  (void)p; (void)n;
#endif
}
std::size_t vp_live() { return g_live; }
std::size_t vp_allocs() { return g_allocs; }
extern void *__real_malloc(std::size_t);
extern void __real_free(void *);
void *__wrap_malloc(std::size_t n) { g_allocs++; g_live++; return __real_malloc(n); }
void __wrap_free(void *p) { if (p) g_live--; __real_free(p); }
void vp_main(const char *name);
}
#ifndef VP_MSAN
void *operator new(std::size_t n) { g_allocs++; g_live++; void *p = __real_malloc(n ? n : 1); return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) g_live--; __real_free(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
#else // MemorySanitizer has its own operators
extern "C" {
extern void *__real__Znwm(std::size_t);
extern void *__real__Znam(std::size_t);
extern void __real__ZdlPv(void *);
extern void __real__ZdaPv(void *);
void *__wrap__Znwm(std::size_t n) { g_allocs++; g_live++; return __real__Znwm(n); }
void *__wrap__Znam(std::size_t n) { g_allocs++; g_live++; return __real__Znam(n); }
void __wrap__ZdlPv(void *p) { if (p) g_live--; __real__ZdlPv(p); }
void __wrap__ZdlPvm(void *p, std::size_t) { __wrap__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { if (p) g_live--; __real__ZdaPv(p); }
void __wrap__ZdaPvm(void *p, std::size_t) { __wrap__ZdaPv(p); }
}
#endif
int main(int, char **argv) {
  load(argv[2]);
  g_allocs = g_live = 0;
  vp_main(argv[1]);
  std::printf("VP_END\n");
  std::fflush(stdout);
  std::_Exit(0);
}
