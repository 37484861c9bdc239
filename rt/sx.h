// Harness interface of the symbolic executor.  The same harness is also compiled natively: then inputs come
// from a recorded assignment and assertions are ordinary run-time checks.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sx_sym_(void* p, size_t n, const char* name);
void sx_assume_(int c);
void sx_assert_(int c, const char* msg);
void sx_fail(const char* msg);
void sx_stop();
uint64_t sx_choose(uint64_t n, const char* name);
uint64_t sx_concretize(uint64_t v);
int sx_is_symbolic(uint64_t v);
void sx_cover(const char* name);
void sx_cover_if(int c, const char* name);
void sx_observe(const char* name, uint64_t v);
int sx_native();
uint64_t sx_param(const char* name, uint64_t dflt);
void sx_debug(const char* msg, uint64_t v);
size_t sx_spawn(void (*fn)(void*), void* arg);
size_t sx_self();
size_t sx_nthreads_alive();
void sx_yield();
void sx_switch(size_t t);
int sx_memobj_ok(const void* p, size_t n);
void harness();
}
#define sx_assume(c) sx_assume_((c) ? 1 : 0)
#define sx_assert(c, msg) sx_assert_((c) ? 1 : 0, msg)
template <class T> inline T sx_any(const char* name) { T t; sx_sym_(&t, sizeof t, name); return t; }
template <class T> inline void sx_anys(T* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) sx_sym_(&p[i], sizeof(T), name); }
#include <cstring>
inline uint32_t f2b(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
inline float b2f(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
inline uint64_t d2b(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
inline double b2d(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
