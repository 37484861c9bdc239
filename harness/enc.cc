// P01, P02 (conversion part)
#include "sx.h"
#include "ExSeisDat/utils/encoding/number_encoding.hh"
using namespace exseis::utils;
template <class T, class U> static void roundtrip(const char* nm) {
    // value -> bytes -> value
    T v = sx_any<T>(nm); auto b = to_big_endian<T>(v);
    uint64_t x = 0; for (size_t i = 0; i < sizeof(T); i++) x = (x << 8) | b[i];
    sx_assert(x == (uint64_t)(U)v, "to_big_endian puts the most significant byte first");
    sx_observe("bytes", x);
}
template <class T, class U> static void decode(const char* nm) {
    std::array<unsigned char, sizeof(T)> a; for (auto& c : a) c = sx_any<unsigned char>(nm);
    uint64_t x = 0; for (size_t i = 0; i < sizeof(T); i++) x = (x << 8) | a[i];
    T v = from_big_endian<T>(a);
    sx_assert((U)v == (U)x, "from_big_endian reads the most significant byte first");
    auto b = to_big_endian<T>(v); for (size_t i = 0; i < sizeof(T); i++) sx_assert(b[i] == a[i], "decode then encode gives the same bytes");
    sx_observe("value", (uint64_t)(U)v);
}
static void be() {
    roundtrip<int16_t, uint16_t>("i16"); roundtrip<uint16_t, uint16_t>("u16"); roundtrip<int32_t, uint32_t>("i32"); roundtrip<uint32_t, uint32_t>("u32"); roundtrip<int64_t, uint64_t>("i64"); roundtrip<uint64_t, uint64_t>("u64");
    decode<int16_t, uint16_t>("b16"); decode<uint16_t, uint16_t>("c16"); decode<int32_t, uint32_t>("b32"); decode<uint32_t, uint32_t>("c32");
    { unsigned char a = sx_any<unsigned char>("v0"), b = sx_any<unsigned char>("v1"), c = sx_any<unsigned char>("v2"), d = sx_any<unsigned char>("v3");
      sx_assert((uint16_t)from_big_endian<int16_t>(a, b) == (uint16_t)((a << 8) | b), "two-byte variadic decode");
      sx_assert((uint32_t)from_big_endian<int32_t>(a, b, c, d) == (((uint32_t)a << 24) | (b << 16) | (c << 8) | d), "four-byte variadic decode");
      float f = from_big_endian<float>(a, b, c, d); sx_assert(f2b(f) == (((uint32_t)a << 24) | (b << 16) | (c << 8) | d), "float variadic decode"); }
    // floats: compared as bit patterns
    float f = b2f(sx_any<uint32_t>("f")); auto fb = to_big_endian<float>(f);
    sx_assert((((uint32_t)fb[0] << 24) | (fb[1] << 16) | (fb[2] << 8) | fb[3]) == f2b(f), "float bytes are big endian");
    sx_assert(f2b(from_big_endian<float>(fb)) == f2b(f), "float round trip is exact");
    sx_cover("end");
}
// correctly rounded reference for an IBM pattern, by integer arithmetic; both results of a tie
static void ref(uint32_t p, uint32_t& r1, uint32_t& r2) {
    uint32_t s = p & 0x80000000u, frac = p & 0xFFFFFF; int e = 4 * ((int)((p >> 24) & 0x7F) - 64) - 24; // value = frac * 2^e
    if (!frac) { r1 = 0; r2 = 0x80000000u; return; }
    int lz = 0; while (!(frac & 0x800000)) { frac <<= 1; lz++; } e -= lz;      // 24 significant bits, value = frac*2^e
    int be = e + 23 + 127;                                                   // biased exponent of the leading bit
    if (be >= 255) { r1 = r2 = s | 0x7F800000u; return; }
    if (be >= 1) { r1 = r2 = s | ((uint32_t)be << 23) | (frac & 0x7FFFFF); return; }
    int sh = 1 - be;                                                         // denormal: units of 2^-149
    if (sh > 24) { r1 = r2 = s; return; }
    uint32_t q = frac >> sh, rem = frac & ((1u << sh) - 1), half = 1u << (sh - 1);
    r1 = s | (rem >= half ? q + 1 : q); r2 = s | (rem > half ? q + 1 : q);
}
static void ibm() {
    unsigned char b[4]; sx_anys(b, 4, "p");
    uint32_t p = ((uint32_t)b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
    bool big = sx_param("big", 1);
    std::array<unsigned char, 4> a; for (int i = 0; i < 4; i++) a[i] = big ? b[i] : b[3 - i];
    float f = from_IBM_to_float(a, big);
    uint32_t r1, r2; ref(p, r1, r2);
    sx_assert(f2b(f) == r1 || f2b(f) == r2, "IBM pattern converts to the nearest float");
    sx_observe("float", f2b(f));
    if (r1 >> 23 == 0 && r1) sx_cover("denormal");
    if ((r1 & 0x7FFFFFFF) == 0x7F800000) sx_cover("overflow");
    if ((p & 0xF00000) == 0 && (p & 0xFFFFFF)) sx_cover("unnormalised");
}
extern "C" void harness() { if (sx_param("mode", 0) == 0) be(); else ibm(); }
