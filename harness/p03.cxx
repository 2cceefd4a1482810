// P03: stretchy encodings round-trip
//LIB
#include "vc.h"
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/essentials.h"
#include "fast_positive/tuples/internal.h"
using namespace fptu;
using namespace fptu::details;

VC(text_roundtrip) {
  const size_t n = nd_range(0, 65535 * 2 + 255, "length");
  const char *src = (const char *)nd_buf(n, 0, "value");
  fptu::string_view v(src, n);
  const size_t units = meta::genus_traits<genus::text>::estimate_space(v);
  vc_assert(units * 4 >= n + 1 && units * 4 <= n + 6, "estimate_space is the value plus its header, rounded up");
  relative_payload *p = (relative_payload *)nd_buf(units * 4, 2, "payload");
  meta::genus_traits<genus::text>::write(p, v);
  vc_assert(p->stretchy.string.length() == n, "stored length is the length of the value");
  vc_assert(p->stretchy.string.brutto_units() == units, "stored size equals the estimate");
  vc_assert(p->stretchy.brutto_units(genus::text) == units, "stretchy size equals the estimate");
  vc_assert(p->stretchy.length(genus::text) == n, "stretchy length");
  vc_assert((n == 0) || !p->stretchy.string.is_pool_tag(), "a stored non-empty value is not a pool tag");
  fptu::string_view r = meta::genus_traits<genus::text>::read(p);
  vc_assert(r.size() == n, "read gives the length back");
  vc_assert((const uint8_t *)r.data() > (const uint8_t *)p && (const uint8_t *)r.data() + n <= (const uint8_t *)p + units * 4, "the value lies inside of its payload");
  vc_assert(p->stretchy.string.end() == r.data() + n, "end() is begin() + length()");
  size_t i = nd_u64("i");
  if (i < n)
    vc_assert(r.data()[i] == src[i], "read gives the content back");
  /* the tail of the last unit is cleared */
  size_t hdr = (size_t)(r.data() - (const char *)p);
  size_t j = nd_u64("j");
  if (j >= hdr + n && j < units * 4)
    vc_assert(((const uint8_t *)p)[j] == 0, "padding is zero");
}

VC(text_empty_is_not_pool) {
  relative_payload *p = (relative_payload *)nd_buf(4, 2, "payload");
  meta::genus_traits<genus::text>::write(p, fptu::string_view());
  vc_assert(!p->stretchy.string.is_pool_tag(), "an empty value is not a pool tag");
  vc_assert(meta::genus_traits<genus::text>::read(p).empty(), "an empty value reads back empty");
}

VC(text_limit) {
  const size_t n = nd_u64("length");
  unsigned e;
  size_t units = 0;
  VC_TRY(e, units = stretchy_value_string::estimate_space(n));
  if (n > 65535 * 2 + 255)
    vc_assert(e == vc_exc("fptu::value_too_long"), "too long text is rejected");
  else {
    vc_assert(e == 0, "text within the limit is accepted");
    vc_assert(units == (n + (n < 254 ? 1 : 3) + 3) / 4, "units of text");
  }
}

VC(varbin_roundtrip) {
  const size_t n = nd_range(0, 65534 * 4, "length");
  const char *src = (const char *)nd_buf(n, 0, "value");
  fptu::string_view v(src, n);
  const size_t units = meta::genus_traits<genus::varbin>::estimate_space(v);
  vc_assert(units * 4 >= n + 4 && units * 4 <= n + 7, "estimate_space is the value plus its header, rounded up");
  relative_payload *p = (relative_payload *)nd_buf(units * 4, 2, "payload");
  meta::genus_traits<genus::varbin>::write(p, v);
  vc_assert(p->stretchy.varbin.brutto_units == units, "stored size equals the estimate");
  vc_assert(p->stretchy.brutto_units(genus::varbin) == units, "stretchy size equals the estimate");
  vc_assert(p->stretchy.varbin.length() == n, "stored length is the length of the value");
  vc_assert(p->stretchy.length(genus::varbin) == n, "stretchy length");
  fptu::string_view r = meta::genus_traits<genus::varbin>::read(p);
  vc_assert(r.size() == n, "read gives the length back");
  vc_assert(r.data() == (const char *)p + 4, "the value follows its header");
  vc_assert((const char *)p->stretchy.varbin.end() == r.data() + n, "end() is begin() + length()");
  size_t i = nd_u64("i");
  if (i < n)
    vc_assert(r.data()[i] == src[i], "read gives the content back");
  size_t j = nd_u64("j");
  if (j >= 4 + n && j < units * 4)
    vc_assert(((const uint8_t *)p)[j] == 0, "padding is zero");
}

VC(varbin_limit) {
  const size_t n = nd_range(0, SIZE_MAX / 2, "length");
  fptu::string_view v((const char *)nd_buf(1, 0, "at"), n);
  unsigned e;
  size_t units = 0;
  VC_TRY(e, units = stretchy_value_varbin::estimate_space(v));
  if (n > 65534 * 4)
    vc_assert(e == vc_exc("fptu::value_too_long"), "too long varbin is rejected");
  else {
    vc_assert(e == 0, "varbin within the limit is accepted");
    vc_assert(units == 1 + (n + 3) / 4, "units of varbin");
  }
}

VC(property_roundtrip) {
  const size_t n = nd_range(0, 255, "length");
  const char *src = (const char *)nd_buf(n, 0, "value");
  property_pair v(fptu::string_view(src, n), nd_u8("id"));
  const size_t units = meta::genus_traits<genus::property>::estimate_space(v);
  vc_assert(units == (n + 2 + 3) / 4, "units of property");
  relative_payload *p = (relative_payload *)nd_buf(units * 4, 2, "payload");
  meta::genus_traits<genus::property>::write(p, v);
  vc_assert(p->stretchy.property.brutto_units() == units, "stored size equals the estimate");
  vc_assert(p->stretchy.brutto_units(genus::property) == units, "stretchy size equals the estimate");
  vc_assert(p->stretchy.property.whole_length() == n + 2, "whole length");
  vc_assert(p->stretchy.length(genus::property) == n + 2, "stretchy length");
  property_pair r = meta::genus_traits<genus::property>::read(p);
  vc_assert(r.second == v.second, "read gives the property id back");
  vc_assert(r.first.size() == n, "read gives the length back");
  vc_assert(r.first.data() == (const char *)p + 2, "the value follows its header");
  size_t i = nd_u64("i");
  if (i < n)
    vc_assert(r.first.data()[i] == src[i], "read gives the content back");
  size_t j = nd_u64("j");
  if (j >= 2 + n && j < units * 4)
    vc_assert(((const uint8_t *)p)[j] == 0, "padding is zero");
}

VC(property_limit) {
  const size_t n = nd_u64("length");
  property_pair v(fptu::string_view((const char *)nd_buf(1, 0, "at"), n), nd_u8("id"));
  vc_assume(n <= SIZE_MAX / 2);
  unsigned e;
  size_t units = 0;
  VC_TRY(e, units = stretchy_value_property::estimate_space(v));
  if (n > 255)
    vc_assert(e == vc_exc("fptu::value_too_long"), "too long property is rejected");
  else
    vc_assert(e == 0 && units == (n + 5) / 4, "property within the limit is accepted");
}

VC(nested_roundtrip) {
  const size_t n = nd_range(1, 65535, "units");
  uint32_t *src = (uint32_t *)nd_buf(n * 4, 2, "value");
  stretchy_value_tuple *t = (stretchy_value_tuple *)src;
  t->brutto_units = (uint16_t)n;
  const size_t units = meta::genus_traits<genus::nested>::estimate_space(t);
  vc_assert(units == n, "estimate_space is the size of the tuple");
  relative_payload *p = (relative_payload *)nd_buf(units * 4, 2, "payload");
  meta::genus_traits<genus::nested>::write(p, t);
  vc_assert(p->stretchy.tuple.brutto_units == n, "stored size equals the estimate");
  vc_assert(p->stretchy.brutto_units(genus::nested) == n, "stretchy size");
  vc_assert(p->stretchy.length(genus::nested) == n * 4, "stretchy length");
  const stretchy_value_tuple *r = meta::genus_traits<genus::nested>::read(p);
  vc_assert((const void *)r == (const void *)p, "nested tuple is read in place");
  size_t i = nd_u64("i");
  if (i < n * 4)
    vc_assert(((const uint8_t *)r)[i] == ((const uint8_t *)src)[i], "read gives the content back");
}

/* tuple header: count of items and flags */
VC(tuple_header) {
  uint8_t *m = (uint8_t *)nd_buf(4, 2, "header");
  stretchy_value_tuple *t = (stretchy_value_tuple *)m;
  size_t count = nd_range(0, max_fields, "count");
  unsigned flags = (unsigned)nd_range(0, 7, "flags");
  uint16_t brutto = nd_u16("brutto");
  t->brutto_units = brutto;
  t->set_index_size_and_flags((ptrdiff_t)count, flags);
  vc_assert(t->index_size() == count, "item count is kept");
  vc_assert(t->is_sorted() == ((flags & 1) != 0), "sorted flag is kept");
  vc_assert(t->have_preplaced() == ((flags & 2) != 0), "preplaced flag is kept");
  vc_assert(t->brutto_units == brutto && t->length() == 4u * brutto, "size is kept");
  vc_assert(t->is_hollow() == (brutto == 0), "hollow is the empty size");
  vc_assert((const uint8_t *)t->begin_index() == m + 4, "index follows the header");
  vc_assert((const uint8_t *)t->end_index() == m + 4 + 4 * count && (const uint8_t *)t->pivot() == (const uint8_t *)t->end_index(), "index has count items");
  vc_assert((const uint8_t *)t->begin_data_units() == m + 4 + 4 * count, "data follow the index");
  vc_assert((const uint8_t *)t->end_data_units() == m + 4u * brutto, "data end at the end of tuple");
  if (brutto >= 1 + count) {
    vc_assert(t->payload_units() == brutto - 1 - count, "payload units");
    vc_assert(t->payload_bytes() == 4 * (brutto - 1 - count), "payload bytes");
  }
}

/* relative offsets */
VC(relative_offset_roundtrip) {
  uint8_t *m = (uint8_t *)nd_buf(65536 * 4, 2, "tuple");
  size_t off = nd_range(1, 65535, "units");
  relative_offset *r = (relative_offset *)m;
  r->set_payload(m + off * 4);
  vc_assert(r->have_payload(), "a set offset has payload");
  vc_assert((uint8_t *)r->payload() == m + off * 4, "payload() gives the pointer back");
  int64_t d = (int64_t)nd_u64("delta");
  vc_assume(d >= -65535 && d <= 65535);
  vc_assume((int64_t)off + d > 0 && (int64_t)off + d <= 65535);
  r->add_delta(d);
  vc_assert((uint8_t *)r->payload() == m + (off + d) * 4, "add_delta moves the payload");
  r->sub_delta(d);
  vc_assert((uint8_t *)r->payload() == m + off * 4, "sub_delta moves it back");
  r->reset_payload();
  vc_assert(!r->have_payload(), "reset_payload drops it");
}

VC(hole_item) {
  uint8_t *m = (uint8_t *)nd_buf(65536 * 4, 2, "tuple");
  field_loose *f = (field_loose *)m;
  size_t off = nd_range(1, 60000, "offset");
  size_t units = nd_range(0, 2047, "units");
  f->genus_and_id = nd_u16("was");
  f->relative.set_payload(m + off * 4);
  f->hole_set_units(units);
  vc_assert(f->is_hole(), "a hole is a hole");
  vc_assert(f->hole_get_units() == units, "hole size is kept");
  if (units) {
    vc_assert((const uint8_t *)f->hole_begin() == m + off * 4, "hole begin");
    vc_assert((const uint8_t *)f->hole_end() == m + (off + units) * 4, "hole end");
  }
  f->hole_purge();
  vc_assert(f->is_hole() && f->hole_get_units() == 0 && !f->relative.have_payload(), "purged hole is empty");
}

/* units <-> bytes */
VC(units_bytes) {
  size_t b = nd_range(0, SIZE_MAX - 3, "bytes");
  size_t u = bytes2units(b);
  vc_assert(u == b / 4 + (b % 4 != 0), "bytes2units rounds up");
  if (u < SIZE_MAX / 4)
    vc_assert(units2bytes(u) == u * 4 && units2bytes(u) >= b && units2bytes(u) - b < 4, "units2bytes covers the bytes");
}
