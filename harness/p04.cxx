// P04: fixed-size values are stored and read back exactly; NULL semantics
//LIB
#include "vc.h"
#include <utility>
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/essentials.h"
#include "fast_positive/tuples/internal.h"
#include "src/tablets.cxx"
using namespace fptu;
using namespace fptu::details;
using rw_acc = tuple_rw::accessor_rw<token>;
using ro_acc = accessor_ro<token>;

/* designated null (DENIL) of each type: minimum of signed integers, all ones
 * of floating-point, zero of everything else */
template <size_t... I> static inline bool all_eq(const uint8_t *x, const uint8_t *y, std::index_sequence<I...>) { return ((x[I] == y[I]) & ... & true); }
template <size_t... I> static inline bool all_are(const uint8_t *x, uint8_t b, std::index_sequence<I...>) { return ((x[I] == b) & ... & true); }
template <size_t N> static inline bool spec_denil(genus g, const uint8_t *image) {
  switch (g) {
  case genus::i8:
  case genus::i16:
  case genus::i32:
  case genus::i64:
    return all_are(image, 0, std::make_index_sequence<N - 1>()) && image[N - 1] == 0x80;
  case genus::f32:
  case genus::f64:
  case genus::d64:
    return all_are(image, 0xff, std::make_index_sequence<N>());
  default:
    return all_are(image, 0, std::make_index_sequence<N>());
  }
}
template <size_t N> static inline bool same(const void *a, const void *b) {
  return all_eq((const uint8_t *)a, (const uint8_t *)b, std::make_index_sequence<N>());
}
template <typename T> static inline bool is_nan_bits(const T &) { return false; }
static inline bool is_nan_bits(const float &f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return (u & 0x7f800000u) == 0x7f800000u;
}
static inline bool is_nan_bits(const double &f) {
  uint64_t u;
  memcpy(&u, &f, 8);
  return (u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull;
}

/* preplaced: set + get + null + erase; the neighbour bytes do not change */
#define PRE(G, N, T)                                                           \
  VC(preplaced_##G) {                                                          \
    const size_t P = preplaced_bytes(genus::G);                                \
    uint8_t *buf = (uint8_t *)nd_buf(P + 16, 3, "area");                       \
    field_preplaced *field = (field_preplaced *)(buf + 8);                     \
    const bool dn = nd_bool("discernible_null");                               \
    const token tok(ptrdiff_t(8), genus::G, dn);                               \
    const T *v = (const T *)nd_buf(sizeof(T), 3, "value");                     \
    vc_assume(!is_nan_bits(*v));                                               \
    const size_t o = nd_u64("o");                                              \
    const bool outside = o < 8 || (o >= 8 + P && o < P + 16);                  \
    const uint8_t was = outside ? buf[o] : 0;                                  \
    rw_acc a((tuple_rw *)buf, field, tok);                                     \
    a.set_##N(*v);                                                             \
    if (outside)                                                               \
      vc_assert(buf[o] == was, "neighbour bytes are unchanged by set");        \
    ro_acc r((const field_preplaced *)field, tok);                             \
    const bool null = dn && spec_denil<sizeof(T)>(genus::G, (const uint8_t *)v); \
    vc_assert(field->is_null(tok.tag()) == null, "a field is null only with the designated null value"); \
    vc_assert(r.exist() == !null, "a field exists unless it is null");         \
    unsigned e;                                                                \
    bool eq = false;                                                           \
    VC_TRY(e, const T x = r.get_##N(); eq = same<sizeof(T)>(&x, v));           \
    if (null)                                                                  \
      vc_assert(e == vc_exc("fptu::field_absent"), "null throws field_absent"); \
    else {                                                                     \
      vc_assert(e == 0, "a value is read without exceptions");                 \
      vc_assert(eq, "get returns what was set");                               \
    }                                                                          \
    preplaced_erase(genus::G, field, dn);                                      \
    if (outside)                                                               \
      vc_assert(buf[o] == was, "neighbour bytes are unchanged by erase");      \
    vc_assert(r.exist() == !dn, "an erased field with discernible NULL does not exist"); \
    bool zero = false;                                                         \
    VC_TRY(e, const T x = r.get_##N(); static const uint8_t z[64] = {0}; zero = same<sizeof(T)>(&x, z)); \
    vc_assert(dn ? e == vc_exc("fptu::field_absent") : e == 0 && zero, "an erased field is absent, or zero when NULL is not discernible"); \
    vc_cover("end");                                                           \
  }
/* loose: the index item refers to units of the data */
#define LOOSE(G, N, T)                                                         \
  VC(loose_##G) {                                                              \
    const size_t U = loose_units(genus::G);                                    \
    const unsigned away = nd_u16("offset");                                    \
    vc_assume(away >= 1);                                                      \
    uint8_t *buf = (uint8_t *)nd_buf(4 + size_t(away) * 4 + U * 4 + 8, 2, "area"); \
    field_loose *f = (field_loose *)(buf + 4);                                 \
    const bool dn = nd_bool("discernible_null");                               \
    const unsigned id = nd_u16("id") & 1023;                                   \
    const token tok(genus::G, id, false, dn);                                  \
    f->genus_and_id = uint16_t(tok.tag());                                     \
    if (U)                                                                     \
      f->relative.set_payload(buf + 4 + size_t(away) * 4);                     \
    const auto off_was = f->inplaced;                                      \
    const T *v = (const T *)nd_buf(sizeof(T), 3, "value");                     \
    vc_assume(!is_nan_bits(*v));                                               \
    const size_t o = nd_u64("o");                                              \
    const size_t base = 4 + size_t(away) * 4;                                  \
    const bool outside = o < 4 || (o >= 8 && o < base) || (o >= base + U * 4 && o < base + U * 4 + 8); \
    const uint8_t was = outside ? buf[o] : 0;                                  \
    meta::genus_traits<genus::G>::write(f, spec_stored<genus::G>(*v));         \
    if (outside)                                                               \
      vc_assert(buf[o] == was, "bytes of other fields are unchanged");         \
    vc_assert(f->genus_and_id == uint16_t(tok.tag()), "the descriptor is unchanged"); \
    if (U)                                                                     \
      vc_assert(f->inplaced == off_was, "the reference is unchanged");         \
    ro_acc r((const field_loose *)f, tok);                                     \
    vc_assert(r.exist(), "a stored loose field exists");                       \
    unsigned e;                                                                \
    bool eq = false;                                                           \
    VC_TRY(e, const T x = r.get_##N(); const T y = spec_back<genus::G>(*v); eq = same<sizeof(T)>(&x, &y)); \
    vc_assert(e == 0, "a loose value is read without exceptions");             \
    vc_assert(eq, "get returns what was stored");                              \
    ro_acc none((const field_loose *)nullptr, tok);                            \
    vc_assert(!none.exist(), "an absent loose field does not exist");          \
    VC_TRY(e, (void)none.get_##N());                                           \
    vc_assert(e == (dn ? vc_exc("fptu::field_absent") : 0), "an absent loose field throws only with discernible NULL"); \
    vc_cover("end");                                                           \
  }
template <genus G, typename T> static inline typename meta::genus_traits<G>::return_type spec_stored(const T &v) { return v; }
template <genus G, typename T> static inline T spec_back(const T &v) { return v; }

#define ALL(X)                                                                 \
  X(i8, i8, int8_t) X(u8, u8, uint8_t) X(i16, i16, int16_t)                    \
  X(u16, u16, uint16_t) X(i32, i32, int32_t) X(u32, u32, uint32_t)             \
  X(f32, f32, float) X(i64, i64, int64_t) X(u64, u64, uint64_t)                \
  X(f64, f64, double) X(t64, datetime, datetime_t) X(bin96, bin96, binary96_t) \
  X(bin128, bin128, binary128_t) X(bin160, bin160, binary160_t)                \
  X(bin192, bin192, binary192_t) X(bin224, bin224, binary224_t)                \
  X(bin256, bin256, binary256_t) X(bin320, bin320, binary320_t)                \
  X(bin384, bin384, binary384_t) X(bin512, bin512, binary512_t)                \
  X(ip, ip_address, ip_address_t) X(mac, mac_address, mac_address_t)           \
  X(ipnet, ip_net, ip_net_t)
ALL(PRE)
ALL(LOOSE)
/* the decimal type differs between compilers */
#ifdef VC_NATIVE
#else
PRE(d64, decimal, decimal64)
LOOSE(d64, decimal, decimal64)
#endif

/* the empty value: what a missing field reads as and what set() drops */
#define EMPTY(G, N, T)                                                         \
  VC(empty_##G) {                                                              \
    const T *v = (const T *)nd_buf(sizeof(T), 3, "value");                     \
    vc_assume(!is_nan_bits(*v));                                               \
    static const uint8_t z[64] = {0};                                          \
    const bool zero = same<sizeof(T)>(v, z);                                   \
    const bool got = meta::genus_traits<genus::G>::is_empty(*v);               \
    vc_assert(zero ? got : true, "zero is empty");                             \
    if (!std::is_floating_point<T>::value)                                     \
      vc_assert(got == zero, "only zero is empty");                            \
    const T &x = meta::genus_traits<genus::G>::empty();                        \
    vc_assert(same<sizeof(T)>(&x, z), "the empty value is zero");              \
    vc_cover("end");                                                           \
  }
ALL(EMPTY)

/* flavours of the same storage */
VC(bool_enum_uuid) {
  uint8_t *buf = (uint8_t *)nd_buf(32, 3, "area");
  field_preplaced *field = (field_preplaced *)(buf + 8);
  const bool dn = nd_bool("discernible_null");
  const token tb(ptrdiff_t(8), genus::boolean, dn);
  const bool b = nd_bool("b");
  rw_acc((tuple_rw *)buf, field, tb).set_bool(b);
  vc_assert(ro_acc((const field_preplaced *)field, tb).get_bool() == b, "get_bool returns what was set");
  const token te(ptrdiff_t(8), genus::enumeration, false);
  const short s = (short)nd_u16("s");
  rw_acc((tuple_rw *)buf, field, te).set_enum(s);
  vc_assert(ro_acc((const field_preplaced *)field, te).get_enum() == s, "get_enum returns what was set");
}
/* t32 keeps whole seconds */
VC(t32) {
  uint8_t *buf = (uint8_t *)nd_buf(32, 3, "area");
  field_preplaced *field = (field_preplaced *)(buf + 8);
  const bool dn = nd_bool("discernible_null");
  const token tok(ptrdiff_t(8), genus::t32, dn);
  const uint64_t raw = nd_u64("value");
  const datetime_t v = datetime_t::from_fixedpoint_32dot32(raw);
  const size_t o = nd_u64("o");
  const bool outside = o < 8 || (o >= 12 && o < 32);
  const uint8_t was = outside ? buf[o] : 0;
  rw_acc((tuple_rw *)buf, field, tok).set_datetime(v);
  if (outside)
    vc_assert(buf[o] == was, "neighbour bytes are unchanged by set");
  unsigned e;
  uint64_t got = 0;
  VC_TRY(e, got = ro_acc((const field_preplaced *)field, tok).get_datetime().fixedpoint_32dot32());
  if (dn && (raw >> 32) == 0)
    vc_assert(e == vc_exc("fptu::field_absent"), "null throws field_absent");
  else
    vc_assert(e == 0 && got == (raw >> 32) << 32, "whole seconds are kept");
}

/* a field of another type is never reinterpreted */
#define MISMATCH(G, N, T)                                                      \
  {                                                                            \
    unsigned e;                                                                \
    if (g != genus::G) {                                                       \
      VC_TRY(e, (void)r.get_##N());                                            \
      vc_assert(e == vc_exc("fptu::type_mismatch"), "get of another type throws type_mismatch"); \
    }                                                                          \
  }
#define MISMATCH_SET(G, N, T)                                                  \
  {                                                                            \
    unsigned e;                                                                \
    T v;                                                                       \
    memset((void *)&v, 1, sizeof(v));                                          \
    if (g != genus::G) {                                                       \
      VC_TRY(e, a.set_##N(v));                                                 \
      vc_assert(e == vc_exc("fptu::type_mismatch"), "set of another type throws type_mismatch"); \
    }                                                                          \
  }
#define NOT_T(X)                                                               \
  X(i8, i8, int8_t) X(u8, u8, uint8_t) X(i16, i16, int16_t)                    \
  X(u16, u16, uint16_t) X(i32, i32, int32_t) X(u32, u32, uint32_t)             \
  X(f32, f32, float) X(i64, i64, int64_t) X(u64, u64, uint64_t)                \
  X(f64, f64, double) X(bin96, bin96, binary96_t)                              \
  X(bin128, bin128, binary128_t) X(bin256, bin256, binary256_t)                \
  X(bin512, bin512, binary512_t) X(ip, ip_address, ip_address_t)               \
  X(mac, mac_address, mac_address_t) X(ipnet, ip_net, ip_net_t)
VC(mismatch_get) {
  const genus g = genus(nd_range(0, 30, "genus"));
  vc_assume(preplaced_bytes(g) >= 1 && preplaced_bytes(g) <= 64);
  uint8_t *buf = (uint8_t *)nd_buf(96, 3, "area");
  const token tok(ptrdiff_t(8), g, nd_bool("dn"));
  ro_acc r((const field_preplaced *)(buf + 8), tok);
  NOT_T(MISMATCH)
  {
    unsigned e;
    if (g != genus::text) {
      VC_TRY(e, (void)r.get_string());
      vc_assert(e == vc_exc("fptu::type_mismatch"), "get_string is for text only");
    }
    if (g != genus::varbin) {
      VC_TRY(e, (void)r.get_varbinary());
      vc_assert(e == vc_exc("fptu::type_mismatch"), "get_varbinary is for varbin only");
    }
    if (g != genus::property) {
      VC_TRY(e, (void)r.get_property());
      vc_assert(e == vc_exc("fptu::type_mismatch"), "get_property is for property only");
    }
    if (g != genus::nested) {
      VC_TRY(e, (void)r.get_nested());
      vc_assert(e == vc_exc("fptu::type_mismatch"), "get_nested is for nested only");
    }
    if (g != genus::t32 && g != genus::t64) {
      VC_TRY(e, (void)r.get_datetime());
      vc_assert(e == vc_exc("fptu::type_mismatch"), "get_datetime is for t32 and t64 only");
    }
  }
}
#define MSET(G, N, T)                                                          \
  VC(mismatch_set_##G) {                                                       \
    const genus g = genus(nd_range(0, 30, "genus"));                           \
    vc_assume(preplaced_bytes(g) >= 1 && preplaced_bytes(g) <= 64);            \
    uint8_t *buf = (uint8_t *)nd_buf(96, 3, "area");                           \
    const token tok(ptrdiff_t(8), g, nd_bool("dn"));                           \
    rw_acc a((tuple_rw *)buf, (field_preplaced *)(buf + 8), tok);              \
    const size_t o = nd_range(0, 95, "o");                                     \
    const uint8_t was = buf[o];                                                \
    MISMATCH_SET(G, N, T)                                                      \
    if (g != genus::G)                                                         \
      vc_assert(buf[o] == was, "a failed set changes nothing");                \
  }
NOT_T(MSET)
