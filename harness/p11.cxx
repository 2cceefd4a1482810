// P11: arithmetic and text helpers
#include "vc.h"
#include <type_traits>
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/internal.h"
#include "fast_positive/erthink/erthink_bswap.h"
#include "fast_positive/erthink/erthink_carryadd.h"
#include "fast_positive/erthink/erthink_clz.h"
#include "fast_positive/erthink/erthink_endian.h"
#include "fast_positive/erthink/erthink_misc.h"
#include "fast_positive/erthink/erthink_mul.h"
#include "fast_positive/erthink/erthink_u2a.h"
#include "fast_positive/tuples/details/utils.h"
using namespace erthink;

VC(bswap) {
  const uint64_t v = nd_u64("v");
  const unsigned k = unsigned(nd_range(0, 7, "byte"));
  vc_assert(uint8_t(bswap<uint64_t>(v) >> (56 - 8 * k)) == uint8_t(v >> (8 * k)), "bswap64 reverses bytes");
  vc_assert(uint64_t(bswap<int64_t>(int64_t(v))) == bswap<uint64_t>(v), "signed bswap64");
  if (k < 4) {
    vc_assert(uint8_t(bswap<uint32_t>(uint32_t(v)) >> (24 - 8 * k)) == uint8_t(v >> (8 * k)), "bswap32 reverses bytes");
    vc_assert(uint32_t(bswap<int32_t>(int32_t(v))) == bswap<uint32_t>(uint32_t(v)), "signed bswap32");
  }
  if (k < 2) {
    vc_assert(uint8_t(bswap<uint16_t>(uint16_t(v)) >> (8 - 8 * k)) == uint8_t(v >> (8 * k)), "bswap16 reverses bytes");
    vc_assert(uint16_t(bswap<int16_t>(int16_t(v))) == bswap<uint16_t>(uint16_t(v)), "signed bswap16");
  }
  vc_assert(bswap<uint8_t>(uint8_t(v)) == uint8_t(v) && uint8_t(bswap<int8_t>(int8_t(v))) == uint8_t(v), "bswap8");
}

template <typename T> static void endian_of(const T v, const unsigned k) {
  typedef typename std::make_unsigned<T>::type U;
  const unsigned n = sizeof(T);
  if (k >= n)
    return;
  const T le = h2le<T>(v), be = h2be<T>(v);
  uint8_t bl[sizeof(T)], bb[sizeof(T)];
  memcpy(bl, &le, n);
  memcpy(bb, &be, n);
  vc_assert(bl[k] == uint8_t(U(v) >> (8 * k)), "little-endian image");
  vc_assert(bb[n - 1 - k] == uint8_t(U(v) >> (8 * k)), "big-endian image");
  vc_assert(le2h<T>(le) == v && be2h<T>(be) == v, "byte order round-trip");
}
VC(endian) {
  const uint64_t v = nd_u64("v");
  const unsigned k = unsigned(nd_range(0, 7, "byte"));
  endian_of<uint8_t>(uint8_t(v), k);
  endian_of<int8_t>(int8_t(v), k);
  endian_of<uint16_t>(uint16_t(v), k);
  endian_of<int16_t>(int16_t(v), k);
  endian_of<uint32_t>(uint32_t(v), k);
  endian_of<int32_t>(int32_t(v), k);
  endian_of<uint64_t>(v, k);
  endian_of<int64_t>(int64_t(v), k);
}

VC(clz) {
  const uint64_t v = nd_u64("v");
  vc_assume(v != 0);
  const int n = clz64(v);
  vc_assert(n >= 0 && n < 64 && (v << n) >> 63 == 1, "clz64");
  vc_assert(fallback_clz64(v) == n, "clz64 fallback");
  const uint32_t w = uint32_t(v);
  if (w) {
    const int m = clz32(w);
    vc_assert(m >= 0 && m < 32 && uint32_t(w << m) >> 31 == 1, "clz32");
    vc_assert(fallback_clz32(w) == m, "clz32 fallback");
  }
}

VC(carry) {
  const uint64_t a = nd_u64("a"), b = nd_u64("b");
  const unsigned c = nd_bool("c");
  const __uint128_t sum0 = (__uint128_t)a + b, sum1 = sum0 + c;
  uint64_t r;
  unsigned o = add64carry_first(a, b, &r);
  vc_assert(r == uint64_t(sum0) && o == unsigned(sum0 >> 64), "add64carry_first");
  o = add64carry_next(c, a, b, &r);
  vc_assert(r == uint64_t(sum1) && o == unsigned(sum1 >> 64), "add64carry_next");
  add64carry_last(c, a, b, &r);
  vc_assert(r == uint64_t(sum1), "add64carry_last");
}

VC(mul) {
  const uint64_t a = nd_u64("a"), b = nd_u64("b");
  const __uint128_t p = (__uint128_t)a * b;
  uint64_t h;
  const uint64_t l = mul_64x64_128(a, b, &h);
  vc_assert(l == uint64_t(p) && h == uint64_t(p >> 64), "mul_64x64_128");
  vc_assert(mul_32x32_64(uint32_t(a), uint32_t(b)) == uint64_t(uint32_t(a)) * uint32_t(b), "mul_32x32_64");
}

VC(abs) {
  const uint64_t v = nd_u64("v");
  {
    const branchless_abs<int64_t> p((int64_t)v);
    vc_assert(p.expanded_sign == (int64_t(v) < 0 ? -1 : 0), "sign");
    vc_assert(p.unsigned_abs == (int64_t(v) < 0 ? 0 - v : v), "abs");
  }
  {
    const branchless_abs<int32_t> p((int32_t)v);
    vc_assert(p.expanded_sign == (int32_t(v) < 0 ? -1 : 0), "sign");
    vc_assert(p.unsigned_abs == (int32_t(v) < 0 ? 0 - uint32_t(v) : uint32_t(v)), "abs");
  }
  vc_assert(msb(v) == (v >> 63 != 0) && msb(uint32_t(v)) == (uint32_t(v) >> 31 != 0), "msb");
}

template <size_t N> static void zeros() {
  const uint8_t *const p = (const uint8_t *)nd_buf(N, 0, "bytes");
  const size_t i = nd_range(0, N - 1, "i");
  const bool z = fptu::utils::is_zero<N>(p), f = fptu::utils::is_allones<N>(p);
  vc_assert(!z || p[i] == 0, "is_zero: every byte is zero");
  vc_assert(!f || p[i] == 255, "is_allones: every byte is 255");
  uint8_t any = 0, all = 255;
  [&]<size_t... K>(std::integer_sequence<size_t, K...>) {
    ((any |= p[K], all &= p[K]), ...);
  }(std::make_integer_sequence<size_t, N>());
  vc_assert(z == (any == 0), "is_zero exactly");
  vc_assert(f == (all == 255), "is_allones exactly");
}
VC(zero1) { zeros<1>(); }
VC(zero2) { zeros<2>(); }
VC(zero3) { zeros<3>(); }
VC(zero4) { zeros<4>(); }
VC(zero5) { zeros<5>(); }
VC(zero6) { zeros<6>(); }
VC(zero7) { zeros<7>(); }
VC(zero8) { zeros<8>(); }
VC(zero12) { zeros<12>(); }
VC(zero16) { zeros<16>(); }
VC(zero20) { zeros<20>(); }
VC(zero24) { zeros<24>(); }
VC(zero28) { zeros<28>(); }
VC(zero32) { zeros<32>(); }
VC(zero40) { zeros<40>(); }
VC(zero48) { zeros<48>(); }
VC(zero64) { zeros<64>(); }

VC(rounding) {
  const size_t v = nd_u64("v");
  const unsigned s = unsigned(nd_range(0, 20, "shift"));
  vc_assume(v < (uint64_t(1) << 62));
  const size_t a = size_t(1) << s;
  const size_t c = fptu::utils::ceil(v, intptr_t(a));
  vc_assert(c >= v && c - v < a && (c & (a - 1)) == 0, "ceil is the least multiple not below");
  const size_t f = fptu::utils::floor<size_t, 64>(v);
  vc_assert(f <= v && v - f < 64 && f % 64 == 0, "floor is the greatest multiple not above");
  vc_assert(fptu::utils::is_power2(v) == (v != 0 && __builtin_popcountll(v) == 1), "is_power2");
  const unsigned bit = unsigned(nd_range(0, 63, "bit"));
  vc_assert(fptu::utils::test_bit(v, bit) == ((v >> bit & 1) != 0), "test_bit");
  vc_assert(fptu::details::bytes2units(v) * 4 >= v && fptu::details::bytes2units(v) * 4 - v < 4, "bytes2units rounds up");
}

static constexpr uint64_t pow10(unsigned n) { return n ? 10 * pow10(n - 1) : 1; }
/* decimal text: exactly the digits of the value, nothing outside of the text is needed */
template <unsigned N> static void decimal(const char *b, const char *e, const uint64_t v) {
  const size_t len = size_t(e - b);
  vc_assert(len >= 1 && len <= N, "length of the decimal text");
  /* digit K is a digit of the group v / 10^(4*(K/4)) % 10^4 */
  [&]<unsigned... K>(std::integer_sequence<unsigned, K...>) {
    (vc_assert(K >= len || b[len - 1 - K] == char('0' + v / pow10(K / 4 * 4) % 10000 / pow10(K % 4) % 10), "digits of the decimal text"), ...);
  }(std::make_integer_sequence<unsigned, N>());
  uint64_t top = 1;
  [&]<unsigned... K>(std::integer_sequence<unsigned, K...>) {
    ((top *= K + 1 < len ? 10 : 1), ...);
  }(std::make_integer_sequence<unsigned, N>());
  vc_assert(len == 1 || v / top != 0, "no leading zero");
  vc_assert(len == N || v / top < 10, "all digits are there");
}
VC(u2a32) {
  const uint32_t v = nd_u32("v");
  char *const b = (char *)nd_buf(10, 0, "text");
  decimal<10>(b, u2a(v, b), v);
}
VC(u2a64) {
  const uint64_t v = nd_u64("v");
  char *const b = (char *)nd_buf(20, 0, "text");
  decimal<20>(b, u2a(v, b), v);
}
#ifndef VC_NATIVE
extern "C" {
/* ghost state of the u2a() contract */
uint64_t vc_u2a_calls(void);
uint64_t vc_u2a_value(void);
char *vc_u2a_place(void);
char *vc_u2a_result(void);
}
#endif
template <typename T> static void signed_text() {
  typedef typename std::make_unsigned<T>::type U;
  const U v = U(nd_u64("w"));
  char *const b = (char *)nd_buf(40, 0, "text");
  const bool neg = T(v) < 0;
  const U m = neg ? U(0) - v : v;
  char *const e = i2a(T(v), b);
  if (neg)
    vc_assert(b[0] == '-', "minus sign");
  VC_SYMBOLIC_ONLY(vc_assert(vc_u2a_calls() == 1 && vc_u2a_value() == m && vc_u2a_place() == b + neg && e == vc_u2a_result(), "magnitude is printed after the sign, by u2a");)
  VC_NATIVE_ONLY(char t[40]; char *const te = u2a(m, t); vc_assert(te - t == e - b - neg && memcmp(t, b + neg, size_t(te - t)) == 0, "magnitude is printed after the sign, by u2a");)
}
VC(i2a32) { signed_text<int32_t>(); }
VC(i2a64) { signed_text<int64_t>(); }

#ifdef VC_NATIVE
#include <cinttypes>
#include <cstdio>
static void text(uint64_t v) {
  char want[32], got[32];
  snprintf(want, 32, "%" PRIu64, v);
  *u2a(v, got) = 0;
  vc_assert(!strcmp(want, got), "u2a(uint64_t)");
  snprintf(want, 32, "%" PRId64, int64_t(v));
  *i2a(int64_t(v), got) = 0;
  vc_assert(!strcmp(want, got), "i2a(int64_t)");
  snprintf(want, 32, "%" PRIu32, uint32_t(v));
  *u2a(uint32_t(v), got) = 0;
  vc_assert(!strcmp(want, got), "u2a(uint32_t)");
  snprintf(want, 32, "%" PRId32, int32_t(v));
  *i2a(int32_t(v), got) = 0;
  vc_assert(!strcmp(want, got), "i2a(int32_t)");
}
VCB(decimal_text) {
  for (unsigned k = 0; k < 4000; ++k) {
    uint64_t v = rt().rnd() >> rt().rnd() % 64;
    switch (rt().rnd() % 4) {
    case 0: { /* around of the powers of ten and their multiples */
      uint64_t p = 1;
      for (unsigned i = rt().rnd() % 20; i; --i)
        p *= 10;
      v = p * (rt().rnd() % 10) + rt().rnd() % 5 - 2;
      break;
    }
    case 1:
      v = 0 - v;
      break;
    }
    text(v);
  }
}
#endif
