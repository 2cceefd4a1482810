// P09: audit of untrusted bytes
//LIB
#include "vc.h"
#include "fast_positive/tuples/api.h"
#define private public
#define protected public
#include "src/audit.cxx"
#ifndef VC_NATIVE
#include "src/tablets.cxx"
#endif
#undef private
#undef protected
#ifdef VC_NATIVE
#include <functional>
#include "model.h"
#endif
using namespace fptu;
using namespace fptu::details;
extern "C" {
#ifndef VC_NATIVE
/* ghost state of the map_insert() contract */
uint64_t vc_map_calls(void);
uint64_t vc_map_begin(void);
uint64_t vc_map_end(void);
bool vc_map_free(void);
#endif
}

static constexpr unsigned max_area = 65534;

#ifndef VC_NATIVE
/* one index item, arbitrary content of an arbitrary tuple */
VC(check_loose) {
  const size_t units = nd_range(1, max_area, "units");
  const size_t index = nd_range(1, 8191, "index");
  vc_assume(index <= units);
  const size_t k = nd_range(0, 8190, "item");
  vc_assume(k < index);
  unit_t *const area = (unit_t *)nd_buf(units * 4, 2, "area");
  auditor *const a = (auditor *)nd_buf(sizeof(auditor), 3, "auditor");
  const field_loose *const f = (const field_loose *)area + k;
  unit_t *const pivot = area + index, *const end = area + units;
  const genus g = genus(f->genus_and_id >> 11);
  const size_t off = f->relative.offset_uint16;
  vc_mark("genus", g);
  const size_t hc = a->holes_count_, hv = a->holes_volume_;

  const char *const r = a->check_loose(f, pivot, end);

  const bool inplaced = g == genus::i8 || g == genus::u8 || g == genus::i16 || g == genus::u16;
  const size_t at = k + off; /* unit of the payload */
  const bool inside = off != 0 && at >= index && at < units;
  size_t need = 0;
  if (g == genus::hole)
    need = f->genus_and_id & 2047;
  else if (g > genus::property)
    need = loose_units_dynamic(g);
  bool ok, places = true;
  if (inplaced) {
    ok = true;
    places = false;
  } else if (g == genus::hole && need == 0) {
    ok = off == 0;
    places = false;
  } else if (g > genus::property)
    ok = inside && at + need <= units;
  else if (off == 0) {
    ok = true;
    places = false;
  } else if (!inside)
    ok = false;
  else {
    const uint8_t *const b = (const uint8_t *)(area + at);
    const size_t lo = b[0] + b[1] * 256u, hi = b[2] * 256u + b[1];
    switch (g) {
    case genus::text:
      need = (b[0] < 254 ? 1u + b[0] + 3 : 3u + b[0] + hi * 2 + 3) / 4;
      ok = true;
      break;
    case genus::varbin:
      need = lo;
      ok = need > 1 || (need == 1 && (b[2] & 3) == 0);
      break;
    case genus::nested:
      need = lo;
      ok = need > 0;
      break;
    default:
      need = (2u + b[0] + 3) / 4;
      ok = true;
    }
    ok = ok && at + need <= units;
  }
  if (r == nullptr) {
    vc_assert(ok, "an accepted item is well-formed and lies inside of the payload");
    if (places) {
      vc_assert(vc_map_calls() == 1 && vc_map_free(), "the place of an accepted item is registered as occupied, without overlap");
      vc_assert(vc_map_begin() == at - index && vc_map_end() == at + need - index, "the whole place of an accepted item is registered");
      if (g == genus::text && !f->relative.payload()->stretchy.string.is_pool_tag()) {
        const fptu::string_view v = meta::genus_traits<genus::text>::read(f->relative.payload());
        vc_assert((const char *)v.data() > (const char *)(area + at) && (const char *)v.data() + v.size() <= (const char *)(area + at + need), "an accepted text is read inside of its place");
      } else if (g == genus::varbin) {
        const fptu::string_view v = meta::genus_traits<genus::varbin>::read(f->relative.payload());
        vc_assert(v.size() <= (need - 1) * 4 && (const char *)v.data() >= (const char *)(area + at) && (const char *)v.data() + v.size() <= (const char *)(area + at + need), "an accepted varbinary is read inside of its place");
      } else if (g == genus::property) {
        const property_pair v = meta::genus_traits<genus::property>::read(f->relative.payload());
        vc_assert((const char *)v.first.data() > (const char *)(area + at) && (const char *)v.first.data() + v.first.size() <= (const char *)(area + at + need), "an accepted property is read inside of its place");
      }
    } else
      vc_assert(vc_map_calls() == 0, "an item without payload occupies nothing");
    vc_assert(a->holes_count_ == hc + (g == genus::hole ? 1 : 0), "holes are counted");
    vc_assert(a->holes_volume_ == hv + (g == genus::hole ? need : 0), "volume of holes is counted");
  } else
    vc_assert(!ok || (vc_map_calls() == 1 && !vc_map_free()), "a well-formed item whose place is free is not rejected");
}

VC(lite_checkup) {
  const size_t bytes = nd_u64("bytes");
  const size_t have = nd_range(0, 1 << 20, "have");
  const bool null = nd_bool("null");
  vc_assume(null || bytes <= have);
  uint8_t *p = (uint8_t *)nd_buf(have, 2, "tuple");
  const char *const r = tuple_ro::lite_checkup(null ? nullptr : p, bytes);
  bool ok = !null && bytes >= 4 && bytes <= max_tuple_bytes_netto && bytes % 4 == 0;
  if (ok) {
    const size_t brutto = p[0] + p[1] * 256u, index = (p[2] + p[3] * 256u) >> 3;
    ok = brutto * 4 == bytes && index + 1 <= brutto;
  }
  vc_assert((r == nullptr) == ok, "lite_checkup accepts exactly the consistent headers");
}

/* the verdict on each index item is arbitrary, the tuple has no schema */
VC(audit_items) {
  const size_t units = nd_range(0, max_area, "units");
  const size_t index = nd_range(0, 8191, "index");
  vc_assume(index <= units);
  unit_t *const area = (unit_t *)nd_buf(units * 4, 2, "area");
  /* verdict[k] != 0: check_loose() rejects the item k */
  uint8_t *const verdict = (uint8_t *)nd_buf(index * 4, 2, "verdict");
  vc_mark("area", (uint64_t)area);
  vc_mark("verdict", (uint64_t)verdict);
  const size_t k = nd_u64("k");
  vc_assume(k < index);
  vc_mark("k", k * 4);
  const unsigned flags = nd_u32("flags") & (audit_flags::audit_tuple_sorted_loose | audit_flags::audit_tuple_have_preplaced | audit_flags::audit_adjacent_holes);
  audit_holes_info info;
  const char *const r = audit_tuple(nullptr, (const field_loose *)area, area + index, area + units, audit_flags(flags), info);
  if (r == nullptr) {
    vc_assert(verdict[k * 4] == 0, "each index item of an accepted tuple has been checked and accepted");
    vc_assert(!(flags & audit_flags::audit_tuple_have_preplaced), "preplaced fields need the schema");
  }
}
#endif

#ifdef VC_NATIVE
/* the map of occupied intervals against a bitset: all histories over a small universe */
VCB(map_insert) {
  rt().once = true;
  static const unsigned N = 7;
  std::vector<std::pair<unsigned, unsigned>> iv;
  for (unsigned b = 0; b < N; ++b)
    for (unsigned e = b + 1; e <= N; ++e)
      iv.push_back({b, e});
  std::vector<unsigned> h;
  std::function<void()> run = [&] {
    onstack_allocation_arena area;
    auditor a(area, 64);
    unsigned bits = 0;
    for (unsigned x : h) {
      unsigned m = 0;
      for (unsigned i = iv[x].first; i < iv[x].second; ++i)
        m |= 1u << i;
      const bool free = (bits & m) == 0;
      const bool r = a.map_insert(ptrdiff_t(iv[x].first + 100), ptrdiff_t(iv[x].second + 100));
      vc_assert(r == free, "map_insert accepts exactly the free intervals");
      if (!r)
        return;
      bits |= m;
      unsigned lo = __builtin_ctz(bits), hi = 32 - __builtin_clz(bits);
      unsigned runs = __builtin_popcount(bits & ~(bits << 1));
      vc_assert(a.map_begin() == lo + 100 && a.map_end() == hi + 100, "bounds of the map");
      vc_assert(a.map_items() == runs && a.map_have_holes() == (runs > 1), "the map is the list of maximal runs");
    }
    if (h.size() < 5)
      for (unsigned x = 0; x < iv.size(); ++x) {
        h.push_back(x);
        run();
        h.pop_back();
      }
  };
  run();
}
VCB(map_insert_wide) {
  onstack_allocation_arena area;
  auditor a(area, 200);
  std::vector<uint8_t> bits(70000);
  unsigned span = rt().rnd() % 2 ? 65535 : 1 + rt().rnd() % 400;
  unsigned len = 1 + rt().rnd() % 40;
  for (unsigned i = 0; i < 190; ++i) {
    unsigned b = rt().rnd() % span, e = b + 1 + rt().rnd() % len;
    if (e > span)
      continue;
    bool free = true;
    for (unsigned x = b; x < e; ++x)
      free &= !bits[x];
    const bool r = a.map_insert(ptrdiff_t(b), ptrdiff_t(e));
    vc_assert(r == free, "map_insert accepts exactly the free intervals");
    if (!r)
      continue;
    for (unsigned x = b; x < e; ++x)
      bits[x] = 1;
    unsigned runs = 0, lo = 0, hi = 0;
    for (unsigned x = 0; x < span; ++x)
      if (bits[x]) {
        if (!x || !bits[x - 1]) {
          if (!runs++)
            lo = x;
        }
        hi = x + 1;
      }
    vc_assert(a.map_begin() == lo && a.map_end() == hi && a.map_items() == runs, "the map is the list of maximal runs");
  }
}

static const uint8_t fixed_units[32] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 2, 4, 2, 4, 5, 0};
/* independent judge of a serialised tuple */
static const char *judge(const std::vector<uint8_t> &img, const fptu::schema *s) {
  const size_t bytes = img.size();
  auto u16 = [&](size_t at) { return unsigned(img[at] + img[at + 1] * 256u); };
  if (bytes < 4 || bytes % 4 || bytes > max_tuple_bytes_netto || u16(0) * 4u != bytes)
    return "header";
  const size_t units = bytes / 4, index = u16(2) >> 3;
  const bool sorted = u16(2) & 1, prefl = u16(2) & 2;
  if (index + 1 > units)
    return "index";
  const size_t pivot = 1 + index;
  const size_t pre = s ? s->preplaced_units() : 0;
  if (prefl != (pre > 0))
    return "preplaced flag";
  if (pivot + pre > units)
    return "preplaced area";
  std::vector<uint8_t> own(units);
  size_t claimed = 0;
  auto claim = [&](size_t at, size_t n) {
    if (at < pivot + pre || at + n > units)
      return false;
    for (size_t i = at; i < at + n; ++i)
      if (own[i]++)
        return false;
    claimed += n;
    return true;
  };
  auto stretch = [&](size_t at, genus g) {
    if (at < pivot + pre || at >= units)
      return false;
    const uint8_t *b = &img[at * 4];
    size_t n = 0;
    switch (g) {
    case genus::text:
      n = (b[0] < 254 ? 1u + b[0] + 3 : 3u + b[0] + (b[1] + b[2] * 256u) * 2 + 3) / 4;
      break;
    case genus::varbin:
      n = b[0] + b[1] * 256u;
      if (n < 2 && (b[2] & 3))
        return false;
      break;
    case genus::nested:
      n = b[0] + b[1] * 256u;
      break;
    default:
      n = (2u + b[0] + 3) / 4;
    }
    return n > 0 && claim(at, n);
  };
  unsigned prev = 0;
  bool ordered = true;
  for (size_t k = 1; k < pivot; ++k) {
    const unsigned desc = u16(k * 4 + 2), off = u16(k * 4);
    const genus g = genus(desc >> 11);
    if (k > 1 && desc < prev)
      ordered = false;
    prev = desc;
    if (g >= genus::i8 && g <= genus::u16)
      continue;
    if (g == genus::hole && (desc & 2047) == 0) {
      if (off)
        return "pure hole";
      continue;
    }
    if (g <= genus::property) {
      if (off && !stretch(k + off, g))
        return "stretchy";
      continue;
    }
    if (!off)
      return "no payload";
    if (!claim(k + off, g == genus::hole ? desc & 2047 : fixed_units[g]))
      return "payload";
  }
  if (s)
    for (const token &k : s->tokens())
      if (k.is_preplaced() && model::stretchy(k.type())) {
        const size_t at = pivot * 4 + k.preplaced_offset();
        const unsigned off = u16(at);
        /* offset of a preplaced pointer is in units from the pointer rounded down */
        if (off && !stretch(at / 4 + off, k.type()))
          return "preplaced stretchy";
      }
  if (claimed && claimed != units - pivot - pre)
    return "lost space";
  if (sorted && !ordered)
    return "order";
  return nullptr;
}

static void read_all(const tuple_ro *ro, const fptu::schema *s) {
  volatile uint64_t sink = 0;
  auto eat = [&](const void *p, size_t n) {
    for (size_t i = 0; i < n; ++i)
      sink = sink + ((const uint8_t *)p)[i];
  };
  for (const field_loose *f = ro->begin_index(); f < ro->end_index(); ++f) {
    if (f->is_hole())
      continue;
    const genus g = f->type();
    switch (g) {
    case genus::text: {
      auto v = f->relative.have_payload() ? meta::genus_traits<genus::text>::read(f->relative.payload()) : fptu::string_view();
      eat(v.data(), v.size());
      break;
    }
    case genus::varbin: {
      auto v = f->relative.have_payload() ? meta::genus_traits<genus::varbin>::read(f->relative.payload()) : fptu::string_view();
      eat(v.data(), v.size());
      break;
    }
    case genus::property:
      if (f->relative.have_payload()) {
        auto v = meta::genus_traits<genus::property>::read(f->relative.payload());
        eat(v.first.data(), v.first.size());
      }
      break;
    case genus::nested:
      if (f->relative.have_payload()) {
        const tuple_ro *n = (const tuple_ro *)f->relative.payload();
        eat(n, n->size());
      }
      break;
    default:
      if (loose_units_dynamic(g))
        eat(f->relative.payload(), loose_units_dynamic(g) * 4);
    }
  }
  if (s)
    for (const token &k : s->tokens())
      if (k.is_preplaced()) {
        const field_preplaced *p = (const field_preplaced *)((const char *)ro->payload() + k.preplaced_offset());
        if (!model::stretchy(k.type())) {
          eat(p, preplaced_bytes_dynamic(k.type()));
        } else if (p->relative.have_payload()) {
          eat(p->relative.payload(), p->relative.payload()->stretchy.brutto_units(k.type()) * 4);
          if (k.type() == genus::text)
            eat(p->relative.payload()->stretchy.string.begin(), p->relative.payload()->stretchy.string.length());
          if (k.type() == genus::varbin)
            eat(p->relative.payload()->stretchy.varbin.begin(), p->relative.payload()->stretchy.varbin.length());
        }
      }
  for (auto it = ro->cbegin_loose(); it != ro->cend_loose(); ++it)
    sink = sink + unsigned(it->type());
  for (auto it = ro->cbegin(s); it != ro->cend(s); ++it)
    sink = sink + unsigned(it->type());
}

static void judge_image(const std::vector<uint8_t> &img, const fptu::schema *s, const char *how) {
  /* exact-size heap copy: the sanitizer sees each read beyond */
  uint8_t *p = (uint8_t *)malloc(img.size() ? img.size() : 1);
  memcpy(p, img.data(), img.size());
  const char *want = judge(img, s);
  audit_holes_info info = {0, 0};
  const char *got = "exception";
  try {
    got = tuple_ro::audit(p, img.size(), s, info);
  } catch (const std::exception &e) {
    rt().log += std::string("audit throws ") + e.what() + "\n";
  }
  if ((want == nullptr) != (got == nullptr)) {
    rt().log += std::string(how) + ": expected " + (want ? want : "accept") + ", audit says " + (got ? got : "accept") + "; image ";
    for (size_t i = 0; i < img.size() && i < 400; ++i) {
      char b[4];
      snprintf(b, 4, i % 4 ? "%02x" : " %02x", img[i]);
      rt().log += b;
    }
  }
  vc_assert((want == nullptr) == (got == nullptr), "audit accepts exactly the well-formed tuples");
  if (!got) {
    read_all((const tuple_ro *)p, s);
    size_t cnt = 0, vol = 0;
    const tuple_ro *ro = (const tuple_ro *)p;
    for (const field_loose *f = ro->begin_index(); f < ro->end_index(); ++f)
      if (f->is_hole()) {
        ++cnt;
        vol += f->hole_get_units();
      }
    vc_assert(info.count == cnt && info.volume == vol, "audit counts the holes");
    const char *strict = tuple_ro::audit((const tuple_ro *)p, s, true);
    vc_assert((strict == nullptr) == (cnt == 0), "holes are rejected when not allowed");
    /* an accepted image could be taken for modification */
    if (rt().rnd() % 4 == 0) {
      tuple_rw *rw = nullptr;
      try {
        rw = tuple_rw::create_from_buffer(p, img.size(), rt().rnd() % 5, rt().rnd() % 100, s, hippeus::buffer_tag());
      } catch (const std::exception &e) {
        rt().log += std::string("create_from_buffer throws ") + e.what() + "\n";
        vc_assert(false, "an accepted image could be taken for modification");
      }
      if (rw) {
        const char *e = tuple_rw::audit(rw);
        if (e && !strstr(e, "unmerged")) {
          rt().log += std::string("rw audit: ") + e + "\n";
          vc_assert(false, "a tuple created from an accepted image is valid");
        }
        tuple_rw::deleter()(rw);
      }
    }
  }
  free(p);
}

static std::vector<uint8_t> image(model::world &w) {
  w.impl()->optimize();
  const tuple_ro *ro = w.impl()->take_asis();
  return std::vector<uint8_t>((const uint8_t *)ro, (const uint8_t *)ro + ro->size());
}

static void mutate(std::vector<uint8_t> &img) {
  const unsigned n = 1 + rt().rnd() % 3;
  for (unsigned i = 0; i < n && img.size() >= 4; ++i) {
    size_t at;
    const size_t units = img.size() / 4;
    const size_t index = std::min<size_t>(units - 1, (img[2] + img[3] * 256u) >> 3);
    switch (rt().rnd() % 12) {
    case 0: /* any byte */
      img[rt().rnd() % img.size()] = uint8_t(rt().rnd());
      break;
    case 1: /* a bit */
      at = rt().rnd() % img.size();
      img[at] ^= uint8_t(1u << rt().rnd() % 8);
      break;
    case 2: /* header */
      at = rt().rnd() % 4;
      img[at] = uint8_t(img[at] + (rt().rnd() % 17) - 8);
      break;
    case 3:
    case 4: /* offset of an item */
      if (index) {
        at = 4 + 4 * (rt().rnd() % index);
        if (rt().rnd() % 3) {
          unsigned o = img[at] + img[at + 1] * 256u;
          o += rt().rnd() % 7 - 3;
          img[at] = uint8_t(o);
          img[at + 1] = uint8_t(o >> 8);
        } else {
          unsigned o = rt().rnd() % 2 ? rt().rnd() % (units + 3) : rt().rnd();
          img[at] = uint8_t(o);
          img[at + 1] = uint8_t(o >> 8);
        }
      }
      break;
    case 5:
    case 6: /* genus or id of an item */
      if (index) {
        at = 4 + 4 * (rt().rnd() % index) + 2;
        if (rt().rnd() % 2)
          img[at + 1] = uint8_t((img[at + 1] & 7) | (rt().rnd() % 32) << 3);
        else
          img[at] = uint8_t(img[at] + rt().rnd() % 7 - 3);
      }
      break;
    case 7: /* flags */
      img[2] ^= uint8_t(1u << rt().rnd() % 3);
      break;
    case 8: { /* grow or shrink, with a matching header */
      size_t d = 1 + rt().rnd() % 3;
      if (rt().rnd() % 2)
        img.resize(img.size() + 4 * d, uint8_t(rt().rnd()));
      else if (units > d)
        img.resize(img.size() - 4 * d);
      img[0] = uint8_t(img.size() / 4);
      img[1] = uint8_t(img.size() / 4 >> 8);
      break;
    }
    case 9: /* the first bytes of a payload unit */
      if (units > 1 + index) {
        at = 4 * (1 + index + rt().rnd() % (units - 1 - index)) + rt().rnd() % 4;
        static const uint8_t v[] = {0, 1, 2, 3, 4, 7, 8, 253, 254, 255};
        img[at] = v[rt().rnd() % 10];
      }
      break;
    case 10: /* exchange of two items */
      if (index > 1) {
        size_t a = 4 + 4 * (rt().rnd() % index), b = 4 + 4 * (rt().rnd() % index);
        for (unsigned j = 0; j < 4; ++j)
          std::swap(img[a + j], img[b + j]);
      }
      break;
    case 11: /* odd size */
      img.resize(img.size() - 1 - rt().rnd() % 3);
      break;
    }
  }
}

static void fuzz(bool schema) {
  model::world w;
  w.check_layout = false;
  w.make(schema, true, 1 + rt().rnd() % 8, 1 + rt().rnd() % 8, rt().rnd() % 100);
  for (unsigned i = 0, n = rt().rnd() % 24; i < n; ++i)
    w.step(rt().rnd() % 4 != 0);
  std::vector<uint8_t> img = image(w);
  judge_image(img, w.sch.get(), "intact");
  for (unsigned i = 0; i < 60; ++i) {
    auto m = img;
    mutate(m);
    judge_image(m, w.sch.get(), "mutated");
  }
  if (schema) /* a wrong schema */
    judge_image(img, nullptr, "schema is lost");
}
VCB(fuzz_loose) { fuzz(false); }
VCB(fuzz_schema) { fuzz(true); }
/* small arbitrary images */
VCB(fuzz_small) {
  for (unsigned r = 0; r < 400; ++r) {
    const unsigned units = 1 + rt().rnd() % 6, index = rt().rnd() % 4;
    std::vector<uint8_t> img(units * 4);
    for (auto &b : img)
      b = rt().rnd() % 3 ? uint8_t(rt().rnd() % 6) : uint8_t(rt().rnd());
    img[0] = uint8_t(units);
    img[1] = 0;
    img[2] = uint8_t(index << 3 | (rt().rnd() % 4 == 0 ? rt().rnd() % 8 : 0));
    img[3] = 0;
    for (unsigned k = 1; k <= index && k < units; ++k) {
      img[k * 4] = uint8_t(rt().rnd() % (units + 1));
      img[k * 4 + 1] = 0;
      img[k * 4 + 3] = uint8_t((rt().rnd() % 3 ? std::vector<unsigned>{0, 1, 2, 3, 4, 8, 12, 17, 31}[rt().rnd() % 9] : rt().rnd() % 32) << 3);
    }
    judge_image(img, nullptr, "small");
  }
}
#endif
