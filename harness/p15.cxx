// P15: schema
//LIB
#include "vc.h"
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include "fast_positive/tuples/api.h"
#define private public
#define protected public
#include "fast_positive/tuples/schema.h"
#ifndef VC_NATIVE
#include "src/schema.cxx"
#else
#include "fast_positive/tuples/internal.h"
#endif
#undef private
#undef protected
using namespace fptu;
using namespace fptu::details;

#ifndef VC_NATIVE
extern "C" {
/* tokens [0, pre) of the array are preplaced with ascending offsets below bytes, others are loose with ascending normalized tags;
 * stated for the item k against any other */
void vc_sorted(const void *array, size_t pre, size_t n, size_t bytes, size_t k, uint64_t target);
uint64_t vc_rank();
}
struct fake {
  alignas(schema) char mem[sizeof(schema)];
  schema *make(token *a, size_t n, size_t pre, size_t bytes) {
    schema *const s = (schema *)mem;
    s->number_of_preplaced_ = unsigned(pre);
    ((token **)&s->sorted_tokens_)[0] = a;
    ((token **)&s->sorted_tokens_)[1] = a + n;
    ((token **)&s->sorted_tokens_)[2] = a + n;
    ((size_t *)&s->preplaced_image_)[1] = bytes;
    return s;
  }
};
#define ANY_SCHEMA(K_LIMIT_LO, K_LIMIT_HI, TARGET)                                     \
  const size_t n = nd_u16("n");                                   \
  const size_t pre = nd_u16("pre");                               \
  vc_assume(pre <= n);                                                         \
  const size_t bytes = nd_u16("bytes");                            \
  vc_assume(bytes < 16384);                                                    \
  token *const a = (token *)nd_buf(n * 4, 2, "tokens");                        \
  const size_t k = nd_u16("k");                                                \
  vc_assume(k >= K_LIMIT_LO && k < K_LIMIT_HI);                                \
  fake f;                                                                      \
  const schema *const s = f.make(a, n, pre, bytes);                            \
  const tag_t K = a[k].tag();                                                  \
  vc_sorted(a, pre, n, bytes, k, TARGET)

static bool pre_tag(tag_t t) { return is_preplaced(t); }
VC(search_preplaced) {
  const ptrdiff_t off = ptrdiff_t(nd_u16("off"));
  ANY_SCHEMA(0, pre, uint64_t(off) << tag_bits::offset_shift);
  vc_assume(size_t(off) <= bytes && off < 16384);
  const auto it = s->search_preplaced(off);
  vc_assert((const token *)&*it == a + vc_rank(), "search_preplaced() gives the first field not before the offset");
}
VC(by_offset) {
  const ptrdiff_t off = ptrdiff_t(nd_u64("off"));
  ANY_SCHEMA(0, pre, uint64_t(off) << tag_bits::offset_shift);
  const token r = s->by_offset(off);
  const ptrdiff_t ko = ptrdiff_t(K >> tag_bits::offset_shift);
  if (r.is_valid())
    vc_assert(pre_tag(r.tag()) && ptrdiff_t(r.tag() >> tag_bits::offset_shift) == off, "by_offset() gives a field at the offset");
  if (ko == off)
    vc_assert(r.tag() == K, "by_offset() finds the field");
}
VC(next_by_offset) {
  const ptrdiff_t off = ptrdiff_t(nd_u64("off"));
  ANY_SCHEMA(0, pre, uint64_t(off) << tag_bits::offset_shift);
  const token r = s->next_by_offset(off);
  const ptrdiff_t ko = ptrdiff_t(K >> tag_bits::offset_shift), ro = ptrdiff_t(r.tag() >> tag_bits::offset_shift);
  if (off < 0 || off >= ptrdiff_t(bytes))
    vc_assert(!r.is_valid(), "nothing after the end");
  else if (r.is_valid()) {
    vc_assert(pre_tag(r.tag()) && ro > off, "the next field is behind");
    vc_assert(!(off < ko && ko < ro), "no field between");
  } else
    vc_assert(ko <= off, "no field behind");
}
VC(prev_by_offset) {
  const ptrdiff_t off = ptrdiff_t(nd_u64("off"));
  ANY_SCHEMA(0, pre, uint64_t(off) << tag_bits::offset_shift);
  const token r = s->prev_by_offset(off);
  const ptrdiff_t ko = ptrdiff_t(K >> tag_bits::offset_shift), ro = ptrdiff_t(r.tag() >> tag_bits::offset_shift);
  if (off <= 0 || off > ptrdiff_t(bytes))
    vc_assert(!r.is_valid(), "nothing before the begin");
  else if (r.is_valid()) {
    vc_assert(pre_tag(r.tag()) && ro < off, "the previous field is before");
    vc_assert(!(ro < ko && ko < off), "no field between");
  } else
    vc_assert(ko >= off, "no field before");
}
#endif

#ifdef VC_NATIVE
/* a schema defined at random, against a plain model */
struct model {
  std::unique_ptr<schema> s = schema::create();
  std::map<std::string, token> names;
  std::string image;
  unsigned pre = 0, stretchy = 0;
  std::map<int, unsigned> next;
  static bool same(const token &a, const token &b) { return a.tag() == b.tag(); }
  void lookups() {
    vc_assert(s->tokens().size() == names.size() && s->number_of_preplaced() == pre && s->number_of_stretchy_preplaced() == stretchy && s->have_preplaced() == (pre > 0) && s->have_stretchy_preplaced() == (stretchy > 0), "counters of the schema");
    vc_assert(s->preplaced_bytes() == image.size() && s->preplaced_units() == (image.size() + 3) / 4 && !memcmp(s->preplaced_init_image(), image.data(), image.size()), "initial image");
    for (size_t i = 1; i < s->tokens().size(); ++i) {
      const token a = s->tokens()[i - 1], b = s->tokens()[i];
      vc_assert(a.is_preplaced() >= b.is_preplaced() && (a.is_preplaced() != b.is_preplaced() || (a.is_preplaced() ? a.preplaced_offset() < b.preplaced_offset() : a.normalized_tag() < b.normalized_tag())), "tokens are sorted");
    }
    size_t fixed = sizeof(stretchy_value_tuple), units = 0;
    for (auto &p : names) {
      const token t = p.second;
      vc_assert(same(s->get_token(string_view(p.first)), t) && same(s->get_token_nothrow(string_view(p.first)), t) && same((*s)[p.first], t), "token by name");
      vc_assert(std::string(s->get_name(t)) == p.first && std::string(s->get_name_nothrow(t)) == p.first && std::string((*s)[t]) == p.first, "name by token");
      const auto yes = schema::boolean_option::option_enforce_true, no = schema::boolean_option::option_enforce_false, def = schema::boolean_option::option_default;
      vc_assert(s->get_token(string_view(p.first), yes, def).is_discernible_null() && !s->get_token(string_view(p.first), no, def).is_discernible_null() && s->get_token(string_view(p.first), yes, def).is_saturated() == t.is_saturated(), "enforced NULL discernibility");
      vc_assert(s->get_token(string_view(p.first), def, yes).is_saturated() && !s->get_token(string_view(p.first), def, no).is_saturated() && s->get_token(string_view(p.first), def, no).is_discernible_null() == t.is_discernible_null(), "enforced saturation");
      if (t.is_loose()) {
        uint32_t raw = 0;
        field_loose &f = *(field_loose *)&raw;
        f.genus_and_id = tag2genus_and_id(t.tag());
        vc_assert(same(s->by_loose(&f), t), "token by loose field");
        units += 1 + loose_units_dynamic(t.type());
      } else
        fixed = std::max(fixed, size_t(t.preplaced_offset()) + t.preplaced_size());
      units += t.is_stretchy() ? (77 + 3) / 4 : 0;
    }
    vc_assert(schema::estimate_tuple_size(s->tokens(), 77) == fixed + units * 4, "estimated size");
    for (int o = -2; o < int(image.size()) + 3; ++o) {
      token at, nx, pv;
      for (auto &p : names)
        if (p.second.is_preplaced()) {
          const int x = int(p.second.preplaced_offset());
          if (x == o)
            at = p.second;
          if (x > o && (!nx.is_valid() || x < int(nx.preplaced_offset())))
            nx = p.second;
          if (x < o && (!pv.is_valid() || x > int(pv.preplaced_offset())))
            pv = p.second;
        }
      const bool in = o >= 0 && o < int(image.size());
      vc_assert(same(s->by_offset(o), in ? at : token()), "by_offset()");
      vc_assert(same(s->next_by_offset(o), in ? nx : token()), "next_by_offset()");
      vc_assert(same(s->prev_by_offset(o), o > 0 && o <= int(image.size()) ? pv : token()), "prev_by_offset()");
    }
    bool thrown = false;
    try {
      s->get_token(string_view("no such field"));
    } catch (const schema_no_such_field &) {
      thrown = true;
    }
    vc_assert(thrown && !s->get_token_nothrow(string_view("no such field")).is_valid(), "unknown name");
    uint32_t raw = 0;
        field_loose &f = *(field_loose *)&raw;
    for (int t = 0; t < 31; ++t)
      if (!next.count(t)) {
        f.genus_and_id = tag2genus_and_id(make_tag(genus(t), 0, false, false, false));
        vc_assert(!s->by_loose(&f).is_valid(), "unknown loose field");
        vc_assert(s->get_name_nothrow(token(genus(t), 0)).nil(), "unknown token");
      }
  }
  void define() {
    const genus type = genus(rt().rnd() % 31);
    const bool dn = rt().rnd() & 1, sat = rt().rnd() & 1, coll = rt().rnd() % 4 == 0, dup = !names.empty() && rt().rnd() % 9 == 0;
    std::string name(rt().rnd() % 12 == 0 ? 38 + rt().rnd() % 8 : rt().rnd() % 6, '.');
    for (auto &c : name)
      c = char('a' + rt().rnd() % 26);
    if (dup)
      name = std::next(names.begin(), long(rt().rnd() % names.size()))->first;
    const bool bad = name.size() > 42 || names.count(name), preplaced = rt().rnd() & 1;
    const int how = int(rt().rnd() % 4);
    char init[64];
    for (auto &c : init)
      c = char(rt().rnd());
    const size_t size = preplaced_bytes_dynamic(type);
    const bool ini = preplaced && how != 1 && rt().rnd() % 2;
    token r;
    bool thrown = false;
    try {
      std::string nm = name;
      const token proto = preplaced ? token(ptrdiff_t(rt().rnd() % 100), type, dn, sat) : token(type, unsigned(rt().rnd() % 2048), coll, dn, sat);
      if (how == 0)
        r = s->import_definition(std::move(nm), proto, ini ? init : nullptr, true);
      else if (how == 1 && (preplaced || !coll))
        r = s->define_field(preplaced, std::move(nm), type, dn, sat);
      else if (how == 2 && !preplaced && coll)
        r = s->define_collection(std::move(nm), type, dn, sat);
      else if (preplaced)
        r = s->define_preplaced(std::move(nm), type, dn, sat, ini ? init : nullptr);
      else
        r = s->define_loose(std::move(nm), type, coll, dn, sat);
    } catch (const std::exception &) {
      thrown = true;
    }
    vc_assert(thrown == bad, "a definition is refused exactly when the name is taken or too long");
    if (bad)
      return;
    vc_assert(r.type() == type && r.is_discernible_null() == dn && r.is_saturated() == sat && r.is_preplaced() == preplaced, "the token is as defined");
    names[name] = r;
    if (!preplaced) {
      vc_assert(r.is_collection() == coll, "collection");
      vc_assert(r.id() == next[type], "loose ids are given in sequence");
      next[type] += 1;
      return;
    }
    const size_t al = std::min<size_t>(size, 4);
    while (image.size() % al)
      image.push_back(0);
    vc_assert(size_t(r.preplaced_offset()) == image.size() && r.preplaced_size() == size, "preplaced fields are placed one after another, aligned");
    const size_t at = image.size();
    if (ini)
      image.append(init, size);
    else {
      image.append(size, 0);
      preplaced_erase(type, (field_preplaced *)(&image[at]), dn);
      if (!dn || !is_fixed_size(type))
        vc_assert(image.compare(at, size, std::string(size, 0)) == 0, "initial value is zero");
    }
    pre += 1;
    stretchy += !is_fixed_size(type);
  }
};
VCB(define) {
  model m;
  const unsigned n = unsigned(rt().rnd() % 60);
  for (unsigned i = 0; i < n; ++i)
    m.define();
  m.lookups();
}
/* up to the limits: identifiers of loose fields of each type are given one by one */
VCB(many) {
  auto s = schema::create();
  std::map<int, unsigned> next;
  const unsigned types = 1 + unsigned(rt().rnd() % 4), n = unsigned(rt().rnd() % 1600);
  const unsigned first = unsigned(rt().rnd() % 27);
  for (unsigned i = 0; i < n; ++i) {
    const genus type = genus(first + rt().rnd() % types);
    token t;
    bool thrown = false;
    try {
      t = s->define_loose("f" + std::to_string(i), type);
    } catch (const schema_definition_error &) {
      thrown = true;
    }
    vc_assert(thrown == (next[int(type)] >= details::loose_end), "as many loose fields of a type as the format has");
    if (!thrown)
      vc_assert(t.is_loose() && t.type() == type && t.id() == next[int(type)]++, "identifiers are given one by one");
  }
  for (auto &x : next)
    for (unsigned id = 0; id <= x.second; ++id)
      vc_assert(s->get_name_nothrow(token(genus(x.first), id)).nil() == (id == x.second), "each of the fields is known");
}
/* definitions with the given tokens: accepted exactly when nothing clashes */
VCB(import) {
  auto s = schema::create();
  std::vector<token> have;
  size_t end = 0;
  for (unsigned i = 0; i < 14; ++i) {
    const genus type = genus(rt().rnd() % 31);
    const bool dn = rt().rnd() & 1;
    token t = rt().rnd() % 3 ? token(ptrdiff_t(end + rt().rnd() % 5), type, dn, false) : token(genus(rt().rnd() % 4), unsigned(rt().rnd() % 3), rt().rnd() & 1, dn, false);
    if (!have.empty() && rt().rnd() % 3 == 0 && t.is_preplaced())
      t = token(ptrdiff_t(rt().rnd() % (end + 4)), type, dn, false);
    bool clash = false;
    for (auto &h : have)
      clash |= h.is_preplaced() != t.is_preplaced() ? false
               : h.is_preplaced() ? t.preplaced_offset() < h.preplaced_offset() + ptrdiff_t(h.preplaced_size()) && h.preplaced_offset() < t.preplaced_offset() + ptrdiff_t(t.preplaced_size())
                                  : h.type() == t.type() && h.id() == t.id();
    if (!clash && t.is_preplaced() && size_t(t.preplaced_offset()) < end)
      continue; /* into a gap: see known_findings.txt */
    bool thrown = false;
    try {
      s->import_definition("f" + std::to_string(i), t);
    } catch (const schema_definition_error &) {
      thrown = true;
    }
    vc_assert(thrown == clash, "an imported definition is refused exactly when it clashes");
    if (clash)
      continue;
    have.push_back(t);
    if (t.is_preplaced())
      end = size_t(t.preplaced_offset()) + t.preplaced_size();
    vc_assert(s->preplaced_bytes() == end, "size of the preplaced area");
  }
  vc_assert(s->tokens().size() == have.size() && std::is_sorted(s->tokens().begin(), s->tokens().end()), "all accepted definitions are there");
}
#endif
