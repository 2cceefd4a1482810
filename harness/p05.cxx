// P05: numeric conversions are exact or refused
//LIB
#include "vc.h"
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/essentials.h"
#include "fast_positive/tuples/internal.h"
#include "src/tablets.cxx"
#ifndef VC_NATIVE
#include "src/rw.cxx"
#endif
using namespace fptu;
using namespace fptu::details;
using rw_acc = tuple_rw::accessor_rw<token>;
using ro_acc = accessor_ro<token>;
typedef __int128 wide;

static inline bool is_int(genus g) {
  return g == genus::i8 || g == genus::i16 || g == genus::i32 || g == genus::i64 || g == genus::u8 || g == genus::u16 || g == genus::u32 || g == genus::u64;
}
static inline bool is_signed(genus g) { return g == genus::i8 || g == genus::i16 || g == genus::i32 || g == genus::i64; }
static inline bool is_flt(genus g) { return g == genus::f32 || g == genus::f64; }
static inline wide lo(genus g) {
  switch (g) {
  case genus::i8:
    return INT8_MIN;
  case genus::i16:
    return INT16_MIN;
  case genus::i32:
    return INT32_MIN;
  case genus::i64:
    return INT64_MIN;
  default:
    return 0;
  }
}
static inline wide hi(genus g) {
  switch (g) {
  case genus::i8:
    return INT8_MAX;
  case genus::i16:
    return INT16_MAX;
  case genus::i32:
    return INT32_MAX;
  case genus::i64:
    return INT64_MAX;
  case genus::u8:
    return UINT8_MAX;
  case genus::u16:
    return UINT16_MAX;
  case genus::u32:
    return UINT32_MAX;
  default:
    return UINT64_MAX;
  }
}
/* what the bytes of an integer field mean */
static inline wide raw_int(genus g, const void *p) {
  switch (g) {
  case genus::i8:
    return *(const int8_t *)p;
  case genus::i16:
    return *(const int16_t *)p;
  case genus::i32:
    return *(const int32_t *)p;
  case genus::i64:
    return *(const int64_t *)p;
  case genus::u8:
    return *(const uint8_t *)p;
  case genus::u16:
    return *(const uint16_t *)p;
  case genus::u32:
    return *(const uint32_t *)p;
  default:
    return *(const uint64_t *)p;
  }
}
static inline bool fin(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return (u & 0x7f800000u) != 0x7f800000u;
}
static inline bool fin(double f) {
  uint64_t u;
  memcpy(&u, &f, 8);
  return (u & 0x7ff0000000000000ull) != 0x7ff0000000000000ull;
}
template <class T> static inline bool fin(T) { return true; }
/* the value v of an integer source stored in a field of type g at p */
enum { SAFE32 = 0x1FFFFF };
static constexpr int64_t SAFE64 = 0x1FFFFFFFFFFFFFll;
template <class V> static inline void check_int(genus g, V v, const void *p, unsigned e, bool numeric, bool unchanged) {
  if (!numeric) {
    vc_assert(e == vc_exc("fptu::type_mismatch"), "a number is not stored in a field of another kind");
    vc_assert(unchanged, "a refused value changes nothing");
    return;
  }
  if (is_int(g)) {
    if (wide(v) >= lo(g) && wide(v) <= hi(g)) {
      vc_assert(e == 0, "a representable value is accepted");
      if (p)
        vc_assert(raw_int(g, p) == wide(v), "a stored value is exact");
    } else {
      vc_assert(e == vc_exc("fptu::value_out_of_range"), "a value which does not fit throws value_range");
      vc_assert(unchanged, "a refused value changes nothing");
    }
  } else if (g == genus::f32) {
    if (wide(v) >= -wide(SAFE32) && wide(v) <= wide(SAFE32))
      vc_assert(e == 0, "an integer in the safe range of f32 is accepted");
    vc_assert(e == 0 || e == vc_exc("fptu::value_out_of_range"), "only value_range refuses");
    if (e == 0) {
      vc_assert(wide(v) >= -wide(1 << 24) && wide(v) <= wide(1 << 24), "integers not exact in f32 are refused");
      if (p)
        vc_assert(*(const float *)p == float(v), "a stored value is exact");
    } else
      vc_assert(unchanged, "a refused value changes nothing");
  } else {
    if (wide(v) >= -wide(SAFE64) && wide(v) <= wide(SAFE64))
      vc_assert(e == 0, "an integer in the safe range of f64 is accepted");
    vc_assert(e == 0 || e == vc_exc("fptu::value_out_of_range"), "only value_range refuses");
    if (e == 0) {
      vc_assert(wide(v) >= -wide(1ll << 53) && wide(v) <= wide(1ll << 53), "integers not exact in f64 are refused");
      if (p)
        vc_assert(*(const double *)p == double(v), "a stored value is exact");
    } else
      vc_assert(unchanged, "a refused value changes nothing");
  }
}
/* certainly storable and certainly not storable floating values */
template <class V> static inline bool inner(genus g, V v) {
  switch (g) {
  case genus::i8:
    return v >= V(-127) && v <= V(127);
  case genus::i16:
    return v >= V(-32767) && v <= V(32767);
  case genus::i32:
    return v >= V(-2147483392.) && v <= V(2147483392.);
  case genus::i64:
    return v >= V(-9223371487098961920.) && v <= V(9223371487098961920.);
  case genus::u8:
    return v >= V(0) && v <= V(255);
  case genus::u16:
    return v >= V(0) && v <= V(65535);
  case genus::u32:
    return v >= V(0) && v <= V(4294966784.);
  default:
    return v >= V(0) && v <= V(18446742974197923840.);
  }
}
template <class V> static inline bool outer(genus g, V v) {
  switch (g) {
  case genus::i8:
    return v <= V(-129) || v >= V(128);
  case genus::i16:
    return v <= V(-32769) || v >= V(32768);
  case genus::i32:
    return v < V(-2147483648.) || v >= V(2147483648.);
  case genus::i64:
    return v < V(-9223372036854775808.) || v >= V(9223372036854775808.);
  case genus::u8:
    return v <= V(-1) || v >= V(256);
  case genus::u16:
    return v <= V(-1) || v >= V(65536);
  case genus::u32:
    return v <= V(-1) || v >= V(4294967296.);
  default:
    return v <= V(-1) || v >= V(18446744073709551616.);
  }
}
template <class V> static inline bool trunc_is(genus g, V v, const void *p) {
  switch (g) {
  case genus::i8:
    return *(const int8_t *)p == int8_t(v);
  case genus::i16:
    return *(const int16_t *)p == int16_t(v);
  case genus::i32:
    return *(const int32_t *)p == int32_t(v);
  case genus::i64:
    return *(const int64_t *)p == int64_t(v);
  case genus::u8:
    return *(const uint8_t *)p == uint8_t(v);
  case genus::u16:
    return *(const uint16_t *)p == uint16_t(v);
  case genus::u32:
    return *(const uint32_t *)p == uint32_t(v);
  default:
    return *(const uint64_t *)p == uint64_t(v);
  }
}
static inline bool f32_holds(float, const void *p, float v) { return *(const float *)p == v; }
template <class V> static inline void check_flt(genus g, V v, const void *p, unsigned e, bool numeric, bool unchanged) {
  if (!numeric) {
    vc_assert(e == vc_exc("fptu::type_mismatch"), "a number is not stored in a field of another kind");
    vc_assert(unchanged, "a refused value changes nothing");
    return;
  }
  if (is_int(g)) {
    if (inner(g, v))
      vc_assert(e == 0, "a number inside the range is accepted");
    if (outer(g, v))
      vc_assert(e == vc_exc("fptu::value_out_of_range"), "a number out of the range throws value_range");
    vc_assert(e == 0 || e == vc_exc("fptu::value_out_of_range"), "only value_range refuses");
    if (e == 0) {
      if (p && !outer(g, v))
        vc_assert(trunc_is(g, v, p), "a stored number is the value truncated toward zero");
    } else
      vc_assert(unchanged, "a refused value changes nothing");
  } else if (g == genus::f64) {
    vc_assert(e == 0, "f64 accepts any finite number");
    if (p)
      vc_assert(*(const double *)p == double(v), "a stored value is exact");
  } else {
    const bool fits = sizeof(V) == 4 || (double(v) <= 3.4028234663852886e38 && double(v) >= -3.4028234663852886e38);
    vc_assert(e == (fits ? 0 : vc_exc("fptu::value_out_of_range")), "f32 accepts exactly the numbers in its range");
    if (fits) {
      if (p)
        vc_assert(*(const float *)p == float(v), "a stored value is the nearest float");
    } else
      vc_assert(unchanged, "a refused value changes nothing");
  }
}
static inline int32_t mk(int32_t) { return (int32_t)nd_u32("v"); }
static inline uint32_t mk(uint32_t) { return nd_u32("v"); }
static inline int64_t mk(int64_t) { return (int64_t)nd_u64("v"); }
static inline uint64_t mk(uint64_t) { return nd_u64("v"); }
static inline float mk(float) { return nd_f32("v"); }
static inline double mk(double) { return nd_f64("v"); }
static inline wide mk(wide) { return wide((unsigned __int128)nd_u64("v1") << 64 | nd_u64("v")); }
static inline genus any_fixed() {
  const genus g = genus(nd_range(0, 30, "genus"));
  vc_assume(preplaced_bytes(g) >= 1 && preplaced_bytes(g) <= 64 && g > genus::property);
  return g;
}

#define SET(NAME, SETTER, T, CHECK, NUMERIC)                                   \
  VC(NAME) {                                                                   \
    const genus g = any_fixed();                                               \
    uint8_t *buf = (uint8_t *)nd_buf(96, 3, "area");                           \
    const token tok(ptrdiff_t(8), g, false);                                   \
    rw_acc a((tuple_rw *)buf, (field_preplaced *)(buf + 8), tok);              \
    const T v = mk(T());                                                       \
    vc_assume(fin(v));                                                         \
    const size_t o = nd_range(0, 95, "o");                                     \
    const uint8_t was = buf[o];                                                \
    unsigned e;                                                                \
    VC_TRY(e, a.SETTER(v));                                                    \
    CHECK(g, v, buf + 8, e, NUMERIC, buf[o] == was);                           \
    vc_cover("end");                                                           \
  }
SET(set_number_i32, set_number, int32_t, check_int, is_int(g) || is_flt(g))
SET(set_number_u32, set_number, uint32_t, check_int, is_int(g) || is_flt(g))
SET(set_number_i64, set_number, int64_t, check_int, is_int(g) || is_flt(g))
SET(set_number_u64, set_number, uint64_t, check_int, is_int(g) || is_flt(g))
SET(set_integer_i64, set_integer, int64_t, check_int, is_signed(g))
SET(set_unsigned_u64, set_unsigned, uint64_t, check_int, is_int(g) && !is_signed(g))
SET(set_number_f32, set_number, float, check_flt, is_int(g) || is_flt(g))
SET(set_number_f64, set_number, double, check_flt, is_int(g) || is_flt(g))
SET(set_float, set_float, double, check_flt, is_flt(g))

/* the sign crossing overloads: any refusal is fine when both reasons apply */
#define CROSS(NAME, SETTER, T, OK)                                             \
  VC(NAME) {                                                                   \
    const genus g = any_fixed();                                               \
    uint8_t *buf = (uint8_t *)nd_buf(96, 3, "area");                           \
    const token tok(ptrdiff_t(8), g, false);                                   \
    rw_acc a((tuple_rw *)buf, (field_preplaced *)(buf + 8), tok);              \
    const T v = mk(T());                                                       \
    const size_t o = nd_range(0, 95, "o");                                     \
    const uint8_t was = buf[o];                                                \
    unsigned e;                                                                \
    VC_TRY(e, a.SETTER(v));                                                    \
    if ((OK) && wide(v) >= lo(g) && wide(v) <= hi(g)) {                        \
      vc_assert(e == 0, "a representable value is accepted");                  \
      vc_assert(raw_int(g, buf + 8) == wide(v), "a stored value is exact");    \
    } else {                                                                   \
      vc_assert((e == vc_exc("fptu::value_out_of_range") && !(wide(v) >= lo(g) && wide(v) <= hi(g) && (OK))) || (e == vc_exc("fptu::type_mismatch") && !(OK)), "an unsuitable value or field is refused"); \
      vc_assert(buf[o] == was, "a refused value changes nothing");             \
    }                                                                          \
    vc_cover("end");                                                           \
  }
CROSS(set_integer_u64, set_integer, uint64_t, is_signed(g))
CROSS(set_unsigned_i64, set_unsigned, int64_t, is_int(g) && !is_signed(g))
/* 128-bit */
VC(set_int128) {
  const genus g = any_fixed();
  uint8_t *buf = (uint8_t *)nd_buf(96, 4, "area");
  const token tok(ptrdiff_t(16), g, false);
  rw_acc a((tuple_rw *)buf, (field_preplaced *)(buf + 16), tok);
  const wide v = mk(wide());
  const size_t o = nd_range(0, 95, "o");
  const uint8_t was = buf[o];
  unsigned e;
  VC_TRY(e, a.set_int128(v));
  if (g == genus::bin128) {
    wide x;
    memcpy(&x, buf + 16, 16);
    vc_assert(e == 0 && x == v, "a 128-bit value is exact");
    const ro_acc r((const field_preplaced *)(buf + 16), tok);
    vc_assert(r.get_int128() == v, "get_int128 returns what was set");
  } else if (is_signed(g) && v >= lo(g) && v <= hi(g))
    vc_assert(e == 0 && raw_int(g, buf + 16) == v, "a representable value is exact");
  else {
    vc_assert(e == vc_exc("fptu::value_out_of_range") || e == vc_exc("fptu::type_mismatch"), "an unsuitable value or field is refused");
    vc_assert(buf[o] == was, "a refused value changes nothing");
  }
  vc_cover("end");
}
VC(set_uint128) {
  const genus g = any_fixed();
  uint8_t *buf = (uint8_t *)nd_buf(96, 4, "area");
  const token tok(ptrdiff_t(16), g, false);
  rw_acc a((tuple_rw *)buf, (field_preplaced *)(buf + 16), tok);
  const uint128_t v = (uint128_t)mk(wide());
  const size_t o = nd_range(0, 95, "o");
  const uint8_t was = buf[o];
  unsigned e;
  VC_TRY(e, a.set_uint128(v));
  if (g == genus::bin128) {
    uint128_t x;
    memcpy(&x, buf + 16, 16);
    vc_assert(e == 0 && x == v, "a 128-bit value is exact");
    const ro_acc r((const field_preplaced *)(buf + 16), tok);
    vc_assert(r.get_uint128() == v, "get_uint128 returns what was set");
  } else if (is_int(g) && !is_signed(g) && v <= uint128_t(hi(g)))
    vc_assert(e == 0 && uint128_t(raw_int(g, buf + 16)) == v, "a representable value is exact");
  else {
    vc_assert(e == vc_exc("fptu::value_out_of_range") || e == vc_exc("fptu::type_mismatch"), "an unsuitable value or field is refused");
    vc_assert(buf[o] == was, "a refused value changes nothing");
  }
  vc_cover("end");
}

/* insert into a loose collection; alloc_loose() by contract */
static inline tuple_rw *some_tuple() {
#ifdef VC_NATIVE
  static tuple_rw *t = tuple_rw::create_new(8, 256, nullptr, hippeus::buffer_tag());
  t->reset();
  return t;
#else
  uint8_t *b = (uint8_t *)nd_buf(256, 3, "tuple");
  vc_mark("item", (uint64_t)(b + 64));
  return (tuple_rw *)b;
#endif
}
#ifdef VC_NATIVE
#define TOUCHED() (t->loose_count() != 0)
#else
extern "C" bool vc_touched();
#define TOUCHED() vc_touched()
#endif
template <class V> static inline bool zeroish(genus, V v) { return v == 0; }
static inline bool zeroish(genus g, float v) { return is_int(g) ? v > -1 && v < 1 : v == 0; }
static inline bool zeroish(genus g, double v) { return is_int(g) ? v > -1 && v < 1 : g == genus::f32 ? float(v) == 0 : v == 0; }
#define INSERT(NAME, SETTER, T, CHECK, NUMERIC)                                \
  VC(NAME) {                                                                   \
    const genus g = any_fixed();                                               \
    tuple_rw *t = some_tuple();                                                \
    const bool dn = nd_bool("dn");                                             \
    const token tok(g, nd_u16("id") & 1023, true, dn);                         \
    const T v = mk(T());                                                       \
    vc_assume(fin(v));                                                         \
    unsigned e;                                                                \
    const void *p = nullptr;                                                   \
    bool some = false;                                                         \
    VC_TRY(e, auto it = t->SETTER(tok, v); const field_loose *f = (const field_loose *)it.field_; some = f != nullptr; \
           if (f) p = loose_units_dynamic(g) ? (const void *)f->relative.payload() : (const void *)f); \
    CHECK(g, v, p, e, NUMERIC, !TOUCHED());                                    \
    if (e == 0 && dn)                                                          \
      vc_assert(some, "an item is added");                                     \
    if (e == 0 && !some)                                                       \
      vc_assert(zeroish(g, v), "only an empty value is not stored"); \
    vc_cover("end");                                                           \
  }
INSERT(insert_number_i32, insert_number, int32_t, check_int, is_int(g) || is_flt(g))
INSERT(insert_number_u32, insert_number, uint32_t, check_int, is_int(g) || is_flt(g))
INSERT(insert_number_i64, insert_number, int64_t, check_int, is_int(g) || is_flt(g))
INSERT(insert_number_u64, insert_number, uint64_t, check_int, is_int(g) || is_flt(g))
INSERT(insert_integer_i64, insert_integer, int64_t, check_int, is_signed(g))
INSERT(insert_unsigned_u64, insert_unsigned, uint64_t, check_int, is_int(g) && !is_signed(g))
INSERT(insert_number_f32, insert_number, float, check_flt, is_int(g) || is_flt(g))
INSERT(insert_number_f64, insert_number, double, check_flt, is_int(g) || is_flt(g))
INSERT(insert_float, insert_float, double, check_flt, is_flt(g))

/* reading */
VC(get_integer_unsigned) {
  const genus g = any_fixed();
  const uint8_t *buf = (const uint8_t *)nd_buf(96, 3, "area");
  const token tok(ptrdiff_t(8), g, false);
  const ro_acc r((const field_preplaced *)(buf + 8), tok);
  unsigned e;
  int64_t i = 0;
  VC_TRY(e, i = r.get_integer());
  vc_assert(is_signed(g) ? e == 0 && wide(i) == raw_int(g, buf + 8) : e == vc_exc("fptu::type_mismatch"), "get_integer reads any signed field exactly");
  uint64_t u = 0;
  VC_TRY(e, u = r.get_unsigned());
  vc_assert(is_int(g) && !is_signed(g) ? e == 0 && wide(u) == raw_int(g, buf + 8) : e == vc_exc("fptu::type_mismatch"), "get_unsigned reads any unsigned field exactly");
  vc_cover("end");
}
VC(get_float) {
  const genus g = any_fixed();
  const uint8_t *buf = (const uint8_t *)nd_buf(96, 3, "area");
  const token tok(ptrdiff_t(8), g, false);
  const ro_acc r((const field_preplaced *)(buf + 8), tok);
  if (g == genus::f32)
    vc_assume(fin(*(const float *)(buf + 8)));
  if (g == genus::f64)
    vc_assume(fin(*(const double *)(buf + 8)));
  unsigned e;
  double d = 0;
  VC_TRY(e, d = r.get_float());
  if (g == genus::f32)
    vc_assert(e == 0 && d == double(*(const float *)(buf + 8)), "get_float of f32 is exact");
  else if (g == genus::f64)
    vc_assert(e == 0 && d == *(const double *)(buf + 8), "get_float of f64 is exact");
  else
    vc_assert(e == vc_exc("fptu::type_mismatch"), "get_float is for floating fields");
  d = 0;
  VC_TRY(e, d = r.get_number_as_ieee754double());
  if (g == genus::f32)
    vc_assert(e == 0 && d == double(*(const float *)(buf + 8)), "f32 as double is exact");
  else if (g == genus::f64)
    vc_assert(e == 0 && d == *(const double *)(buf + 8), "f64 as double is exact");
  else if (is_int(g)) {
    const wide w = raw_int(g, buf + 8);
    if (w >= -wide(SAFE64) && w <= wide(SAFE64))
      vc_assert(e == 0 && d == double(int64_t(w)), "an integer in the safe range reads exactly as double");
    else
      vc_assert(e == vc_exc("fptu::value_out_of_range") || (e == 0 && (w == wide(1ll << 53) || w == -wide(1ll << 53))), "an integer not exact in double throws value_range");
  } else
    vc_assert(e == vc_exc("fptu::type_mismatch"), "only numbers are read as double");
  vc_cover("end");
}
