// P01: field tags and tokens encode and decode exactly
//LIB
#include "vc.h"
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/essentials.h"
#include "fast_positive/tuples/token.h"
#include "fast_positive/tuples/internal.h"
#include "src/tablets.cxx"
using namespace fptu;
using namespace fptu::details;

static inline bool genus_is_fixed(unsigned g) { return g > 3; }

/* bit layout written down independently of the code (see essentials.h diagram) */
VC(make_tag_roundtrip) {
  unsigned type = (unsigned)nd_range(0, 31, "type");
  unsigned id = (unsigned)nd_range(0, 2047, "id");
  bool coll = nd_bool("collection"), dn = nd_bool("discernible"), sat = nd_bool("saturated");
  tag_t t = make_tag(genus(type), id, coll, dn, sat);
  vc_assert(tag2genus(t) == genus(type), "tag2genus(make_tag(type,...)) == type");
  vc_assert(tag2id(t) == id, "tag2id(make_tag(..id..)) == id");
  vc_assert(is_loose(t) && !is_preplaced(t), "a made tag is loose");
  vc_assert(is_loose_collection(t) == coll, "collection flag is kept");
  vc_assert(is_discernible_null(t) == dn, "discernible-null flag is kept");
  vc_assert(is_saturated(t) == sat, "saturation flag is kept");
  vc_assert(is_inlay(t) == (id >= 1024), "inlay ids are the upper half");
  vc_assert(is_loose_inlay(t) == (id >= 1024), "is_loose_inlay");
  vc_assert(is_fixed_size(t) == genus_is_fixed(type), "fixed-size genera are those above property");
  vc_assert(tag2genus_and_id(t) == loose_genus_and_id_t(type << 11 | id), "descriptor layout");
  vc_assert(descriptor2genus(tag2genus_and_id(t)) == genus(type), "descriptor genus");
  vc_assert(descriptor2id(tag2genus_and_id(t)) == id, "descriptor id");
  if (type != 31)
    vc_assert(make_tag(tag2genus_and_id(t), coll, dn, sat) == t, "make_tag(descriptor) restores the tag");
}

VC(tag_from_offset_roundtrip) {
  unsigned type = (unsigned)nd_range(0, 31, "type");
  size_t off = nd_range(0, max_preplaced_offset, "offset");
  size_t size = nd_range(1, 2047, "indysize");
  bool dn = nd_bool("discernible"), sat = nd_bool("saturated");
  tag_t t = tag_from_offset(off, genus(type), size, dn, sat);
  vc_assert(is_preplaced(t) && !is_loose(t), "preplaced tag is preplaced");
  vc_assert(tag2offset(t) == off, "offset is kept");
  vc_assert(tag2genus(t) == genus(type), "genus is kept");
  vc_assert(tag2indysize(t) == size, "size is kept");
  vc_assert(is_discernible_null(t) == dn, "discernible-null flag is kept");
  vc_assert(is_saturated(t) == sat, "saturation flag is kept");
  vc_assert(!is_loose_collection(t) && !is_loose_inlay(t), "preplaced is neither collection nor inlay");
  vc_assert(is_fixed_size(t) == genus_is_fixed(type), "fixed-size");
}

VC(hole_tag) {
  size_t units = nd_range(0, 2047, "units");
  tag_t t = make_hole(units);
  vc_assert(tag2genus(t) == genus::hole && tag2id(t) == units && is_loose(t), "hole tag keeps its size");
}

/* distinct (placement, genus, id/offset/size) never collide; flags do not matter */
VC(tag_same_is_identity) {
  unsigned ta = (unsigned)nd_range(0, 30, "typeA"), tb = (unsigned)nd_range(0, 30, "typeB");
  unsigned ia = (unsigned)nd_range(0, 2047, "idA"), ib = (unsigned)nd_range(0, 2047, "idB");
  bool ca = nd_bool("ca"), cb = nd_bool("cb"), da = nd_bool("da"), db = nd_bool("db"), sa = nd_bool("sa"), sb = nd_bool("sb");
  tag_t a = make_tag(genus(ta), ia, ca, da, sa), b = make_tag(genus(tb), ib, cb, db, sb);
  vc_assert(tag_same(a, b) == (ta == tb && ia == ib), "loose tags are the same field iff genus and id agree");
  size_t oa = nd_range(0, max_preplaced_offset, "offA"), ob = nd_range(0, max_preplaced_offset, "offB");
  size_t za = nd_range(1, 2047, "szA"), zb = nd_range(1, 2047, "szB");
  tag_t p = tag_from_offset(oa, genus(ta), za, da, sa), q = tag_from_offset(ob, genus(tb), zb, db, sb);
  vc_assert(tag_same(p, q) == (ta == tb && oa == ob && za == zb), "preplaced tags are the same field iff offset, genus and size agree");
  vc_assert(!tag_same(a, p) && !tag_same(p, a), "loose and preplaced never coincide");
  vc_assert(tag_less(p, a) && !tag_less(a, p), "preplaced sort before loose");
  if (oa < ob)
    vc_assert(tag_less(p, q) && !tag_less(q, p), "preplaced sort in the order of physical placement");
}

VC(tag_less_strict_order) {
  tag_t a = nd_u32("a"), b = nd_u32("b"), c = nd_u32("c");
  vc_assert(!tag_less(a, a), "irreflexive");
  vc_assert(!(tag_less(a, b) && tag_less(b, a)), "asymmetric");
  vc_assert(!(tag_less(a, b) && tag_less(b, c)) || tag_less(a, c), "transitive");
  vc_assert((!tag_less(a, b) && !tag_less(b, a)) == tag_same(a, b), "incomparable == same field");
  vc_assert(normalize_tag(normalize_tag(a)) == normalize_tag(a), "normalisation is idempotent");
  vc_assert(is_preplaced(normalize_tag(a)) == is_preplaced(a) || !is_preplaced(a), "normalisation keeps placement");
  vc_assert(tag2genus_and_id(normalize_tag(a)) == tag2genus_and_id(a), "normalisation keeps genus and id");
}

VC(token_loose_ctor) {
  uint32_t type = nd_u32("type");
  uint32_t id = nd_u32("id");
  bool coll = nd_bool("collection"), dn = nd_bool("discernible"), sat = nd_bool("saturated");
  unsigned exc;
  token t;
  VC_TRY(exc, t = token(genus(type), unsigned(id), coll, dn, sat));
  if (type >= 31 || id > 2047) {
    vc_assert(exc == vc_exc("invalid_argument"), "out-of-range genus/id is refused with invalid_argument");
    return;
  }
  vc_assert(exc == 0, "valid genus and id are accepted");
  vc_assert(t.type() == genus(type) && t.id() == id, "token keeps genus and id");
  vc_assert(t.is_loose() && !t.is_preplaced(), "token is loose");
  vc_assert(t.is_collection() == coll && t.is_discernible_null() == dn && t.is_saturated() == sat && t.is_rangechecking() == !sat, "token keeps its flags");
  vc_assert(t.is_inlay() == (id > 1023), "inlay");
  vc_assert(t.is_valid(), "valid");
  vc_assert(t.is_stretchy() == (type < 4), "stretchy genera");
  t.enforce_discernible_null(!dn);
  vc_assert(t.is_discernible_null() == !dn && t.is_saturated() == sat && t.id() == id && t.type() == genus(type) && t.is_collection() == coll, "enforce_discernible_null changes only its flag");
  t.enforce_saturation(!sat);
  vc_assert(t.is_discernible_null() == !dn && t.is_saturated() == !sat && t.id() == id && t.type() == genus(type) && t.is_collection() == coll, "enforce_saturation changes only its flag");
  vc_cover("constructed");
}

static unsigned spec_preplaced_bytes(unsigned g) {
  switch (g) {
  case 0: case 1: case 2: case 3: return 4;
  case 4: case 5: return 1;
  case 6: case 7: return 2;
  case 8: case 9: case 10: case 11: return 4;
  case 12: case 13: case 14: case 15: case 16: return 8;
  case 17: return 12;
  case 18: return 16;
  case 19: return 20;
  case 20: return 24;
  case 21: return 28;
  case 22: return 32;
  case 23: return 40;
  case 24: return 48;
  case 25: return 64;
  case 26: return 8;
  case 27: return 16;
  case 28: return 8;  /* mac */
  case 29: return 16; /* ip */
  case 30: return 20; /* ipnet: 17 significant bytes padded to whole units */
  }
  return 0;
}

VC(token_preplaced_ctor) {
  uint64_t off = nd_u64("offset");
  uint32_t type = (uint32_t)nd_range(0, 40, "type");
  vc_assume(type != 31);
  bool dn = nd_bool("discernible"), sat = nd_bool("saturated");
  unsigned exc;
  token t;
  VC_TRY(exc, t = token(ptrdiff_t(off), genus(type), dn, sat));
  if (type > 31 || off > 16381) {
    vc_assert(exc == vc_exc("invalid_argument"), "out-of-range offset/genus is refused with invalid_argument");
    return;
  }
  vc_assert(exc == 0, "valid offset and genus are accepted");
  vc_assert(t.is_preplaced() && !t.is_loose() && !t.is_collection() && !t.is_inlay(), "token is preplaced");
  vc_assert(t.preplaced_offset() == ptrdiff_t(off) && t.type() == genus(type), "token keeps offset and genus");
  vc_assert(t.preplaced_size() == spec_preplaced_bytes(type), "token keeps the size of its genus");
  vc_assert(t.is_discernible_null() == dn && t.is_saturated() == sat, "token keeps its flags");
  vc_cover("constructed");
}

VC(genus_sizes) {
  unsigned g = (unsigned)nd_range(0, 30, "genus");
  vc_assert(preplaced_bytes(genus(g)) == spec_preplaced_bytes(g), "preplaced size of a genus");
  size_t lu = loose_units(genus(g));
  /* in the index descriptor: <= 16 bit values are stored inplace */
  if (g >= 4 && g <= 7)
    vc_assert(lu == 0 && is_inplaced(genus(g)), "16-bit genera need no payload");
  else if (g > 7)
    vc_assert(lu == (spec_preplaced_bytes(g) + 3) / 4 && !is_inplaced(genus(g)), "fixed genera need whole units");
  else
    vc_assert(!is_inplaced(genus(g)), "stretchy genera are not inplaced");
}

VC(units) {
  size_t bytes = nd_u64("bytes");
  vc_assume(bytes < (uint64_t(1) << 60));
  size_t u = bytes2units(bytes);
  vc_assert(units2bytes(u) >= bytes && units2bytes(u) < bytes + 4, "bytes2units rounds up to whole units");
}

VC(predicates) {
  uint32_t tag = nd_u32("tag");
  token t{details::token_nonstatic_tag(tag)};
  unsigned g = (tag >> 11) & 31;
  bool isint = g == 4 || g == 5 || g == 6 || g == 7 || g == 8 || g == 9 || g == 12 || g == 13;
  bool isflt = g == 10 || g == 14 || g == 15;
  vc_assert(t.tag() == tag, "tag is kept");
  vc_assert(t.is_integer() == isint, "is_integer");
  vc_assert(t.is_float() == isflt, "is_float");
  vc_assert(t.is_number() == (isint || isflt), "is_number");
  vc_assert(t.is_signed() == (g == 4 || g == 6 || g == 8 || g == 12 || isflt), "is_signed");
  vc_assert(t.is_unsigned() == (g == 5 || g == 7 || g == 9 || g == 13), "is_unsigned");
  vc_assert(t.is_text() == (g == 0) && t.is_bool() == (g == 4) && t.is_enum() == (g == 6) && t.is_decimal() == (g == 15), "type predicates");
  vc_assert(t.is_stretchy() == (g < 4), "is_stretchy");
  vc_assert(t.is_loose() == (tag >= 0xFFF80000u) && t.is_preplaced() == (tag < 0xFFF80000u), "loose tags are those above the threshold");
}
