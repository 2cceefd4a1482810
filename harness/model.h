/* Reference model of a tuple (native only): a map from fields to values.
 * Drives the real tuple through random histories and compares. */
#pragma once
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/internal.h"
#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model {
using namespace fptu;
using details::tuple_ro;
using details::tuple_rw;

struct val {
  std::string bytes; /* fixed: image of the C++ value; stretchy: content */
  unsigned pid = 0;  /* property id */
  bool operator==(const val &o) const { return bytes == o.bytes && pid == o.pid; }
  bool operator<(const val &o) const { return bytes != o.bytes ? bytes < o.bytes : pid < o.pid; }
};
inline uint64_t R() { return rt().rnd(); }
inline uint64_t R(uint64_t n) { return rt().rnd() % n; }
inline bool one_in(unsigned n) { return R(n) == 0; }

/* C++ value type of the accessors, its size and its natural empty image */
#define MODEL_FIXED(X)                                                         \
  X(i8, i8, int8_t)                                                            \
  X(u8, u8, uint8_t) X(i16, i16, int16_t) X(u16, u16, uint16_t)                \
  X(i32, i32, int32_t) X(u32, u32, uint32_t) X(i64, i64, int64_t)              \
  X(u64, u64, uint64_t) X(f32, f32, float) X(f64, f64, double)                 \
  X(d64, decimal, decimal64) X(t32, datetime, datetime_t)                      \
  X(t64, datetime, datetime_t) X(bin96, bin96, binary96_t)                     \
  X(bin128, bin128, binary128_t) X(bin160, bin160, binary160_t)                \
  X(bin192, bin192, binary192_t) X(bin224, bin224, binary224_t)                \
  X(bin256, bin256, binary256_t) X(bin320, bin320, binary320_t)                \
  X(bin384, bin384, binary384_t) X(bin512, bin512, binary512_t)                \
  X(ip, ip_address, ip_address_t) X(mac, mac_address, mac_address_t)           \
  X(ipnet, ip_net, ip_net_t)

inline const std::vector<genus> &usable() {
  static const std::vector<genus> v = {
      genus::text, genus::varbin, genus::nested, genus::property,
#define X(G, N, T) genus::G,
      MODEL_FIXED(X)
#undef X
  };
  return v;
}
inline bool stretchy(genus g) { return g <= genus::property; }
inline size_t value_size(genus g) {
  switch (g) {
#define X(G, N, T)                                                             \
  case genus::G:                                                               \
    return sizeof(T);
    MODEL_FIXED(X)
#undef X
  default:
    return 0;
  }
}
inline bool is_empty(genus g, const val &v) {
  if (g == genus::nested)
    return v.bytes.size() < 8;
  if (stretchy(g))
    return v.bytes.empty() && !v.pid;
  if (g == genus::d64) { /* the model keeps decimal integers only */
    if (v.bytes[7] == char(0xff))
      return false;
    for (size_t i = 0; i < 6; ++i)
      if (v.bytes[i])
        return false;
    return true;
  }
  if (g == genus::f32 || g == genus::f64) {
    for (size_t i = 0; i + 1 < v.bytes.size(); ++i)
      if (v.bytes[i])
        return false;
    return (v.bytes.back() & 0x7f) == 0;
  }
  for (char c : v.bytes)
    if (c)
      return false;
  return true;
}
inline val empty_of(genus g) {
  val v;
  if (!stretchy(g))
    v.bytes.assign(value_size(g), '\0');
  if (g == genus::d64) { /* decimal 0E0 */
    v.bytes[7] = 0x31;
    v.bytes[6] = char(0xc0);
  }
  return v;
}
/* designated null of fixed-size preplaced fields, see meta.h / essentials.h */
inline std::string denil_image(genus g) {
  std::string z(value_size(g), '\0');
  switch (g) {
  case genus::i8:
  case genus::i16:
  case genus::i32:
  case genus::i64:
    z.back() = char(0x80);
    return z;
  case genus::f32:
  case genus::f64:
  case genus::d64:
    std::fill(z.begin(), z.end(), char(0xff));
    return z;
  default:
    return z;
  }
}
/* images of datetime/time: t32 keeps seconds only */
inline void norm(genus g, val &v) {
  if (g == genus::t32) { /* fixedpoint_32dot32: low half is the fraction */
    v.bytes[0] = v.bytes[1] = v.bytes[2] = v.bytes[3] = 0;
  }
  if (g == genus::d64 && v.bytes[7] != char(0xff)) {
    v.bytes[7] = 0x31;
    v.bytes[6] = char(0xc0);
    v.bytes[5] = 0;
  }
  if (g == genus::f32 || g == genus::f64) {
    /* finite numbers only: the library is built with -ffast-math */
    unsigned char hi = (unsigned char)v.bytes.back();
    if ((hi & 0x7f) == 0x7f)
      v.bytes.back() = char(hi & 0xbf);
    if (is_empty(g, v))
      v = empty_of(g);
    /* no denormals either */
    hi = (unsigned char)v.bytes.back();
    if ((hi & 0x7f) == 0 && !is_empty(g, v))
      v.bytes.back() = char(hi | 0x10);
  }
}
template <class T, class S> void store_bytes(S &o, const T &x) {
  o.assign((const char *)&x, sizeof(T));
}
/* exact-size heap copy: ASAN sees every stray read of the source */
struct exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  string_view sv() const { return string_view(p.get(), n); }
};

inline const tuple_ro *as_nested(tuple_rw &, const void *p) { return (const tuple_ro *)p; }
template <class M> tuple_ro_weak as_nested(M &, const void *p) { return tuple_ro_weak((const tuple_ro *)p); }

template <class TUP> void do_set(TUP &t, const token &k, genus g, const val &v) {
  exact e(v.bytes);
  switch (g) {
  case genus::text:
    t.set_string(k, e.sv());
    return;
  case genus::varbin:
    t.set_varbinary(k, e.sv());
    return;
  case genus::nested:
    t.set_nested(k, as_nested(t, v.bytes.empty() ? nullptr : e.p.get()));
    return;
  case genus::property:
    t.set_property(k, property_pair(e.sv(), (uint8_t)v.pid));
    return;
#define X(G, N, T)                                                             \
  case genus::G: {                                                             \
    const T *x = (const T *)e.p.get();                                         \
    t.set_##N(k, *x);                                                          \
    return;                                                                    \
  }
    MODEL_FIXED(X)
#undef X
  default:
    abort();
  }
}
template <class TUP> void do_insert(TUP &t, const token &k, genus g, const val &v) {
  exact e(v.bytes);
  switch (g) {
  case genus::text:
    t.insert_string(k, e.sv());
    return;
  case genus::varbin:
    t.insert_varbinary(k, e.sv());
    return;
  case genus::nested:
    t.insert_nested(k, as_nested(t, v.bytes.empty() ? nullptr : e.p.get()));
    return;
  case genus::property:
    t.insert_property(k, property_pair(e.sv(), (uint8_t)v.pid));
    return;
#define X(G, N, T)                                                             \
  case genus::G: {                                                             \
    const T *x = (const T *)e.p.get();                                         \
    t.insert_##N(k, *x);                                                       \
    return;                                                                    \
  }
    MODEL_FIXED(X)
#undef X
  default:
    abort();
  }
}
inline std::string nested_bytes(const void *p) {
  if (!p)
    return std::string();
  const details::stretchy_value_tuple *s = (const details::stretchy_value_tuple *)p;
  return std::string((const char *)p, s->brutto_units * 4u);
}
inline std::string sv2s(const string_view &s) { return std::string(s.data() ? s.data() : "", s.size()); }

template <class ACC> val read_acc(const ACC &a, genus g) {
  val v;
  switch (g) {
  case genus::text:
    v.bytes = sv2s(a.get_string());
    break;
  case genus::varbin:
    v.bytes = sv2s(a.get_varbinary());
    break;
  case genus::nested:
    v.bytes = nested_bytes(a.get_nested());
    break;
  case genus::property: {
    property_pair p = a.get_property();
    v.bytes = sv2s(p.first);
    v.pid = (uint8_t)p.second;
    break;
  }
#define X(G, N, T)                                                             \
  case genus::G: {                                                             \
    const T x = a.get_##N();                                                   \
    store_bytes(v.bytes, x);                                                   \
    break;                                                                     \
  }
    MODEL_FIXED(X)
#undef X
  default:
    abort();
  }
  return v;
}
/* true: value read; false: field_absent thrown */
template <class TUP> bool do_get(const TUP &t, const token &k, genus g, val &v) {
  try {
    switch (g) {
    case genus::text:
      v.bytes = sv2s(t.get_string(k));
      return true;
    case genus::varbin:
      v.bytes = sv2s(t.get_varbinary(k));
      return true;
    case genus::nested:
      v.bytes = nested_bytes(t.get_nested(k));
      return true;
    case genus::property: {
      property_pair p = t.get_property(k);
      v.bytes = sv2s(p.first);
      v.pid = (uint8_t)p.second;
      return true;
    }
#define X(G, N, T)                                                             \
  case genus::G: {                                                             \
    const T x = t.get_##N(k);                                                  \
    store_bytes(v.bytes, x);                                                   \
    return true;                                                               \
  }
      MODEL_FIXED(X)
#undef X
    default:
      abort();
    }
  } catch (const field_absent &) {
    return false;
  }
}

inline std::string hexs(const std::string &s) {
  std::string o;
  char b[4];
  for (size_t i = 0; i < s.size() && i < 12; ++i)
    snprintf(b, 4, "%02x", (unsigned char)s[i]), o += b;
  if (s.size() > 12)
    o += ".." + std::to_string(s.size());
  return o;
}

struct field {
  token tok;
  genus g;
  bool dn, coll, pre;
  /* single: at most one element; collection: multiset */
  std::multiset<val> vals;
  std::string init; /* preplaced: initial image */
  size_t index = 0;
};

/* an always-valid small tuple for nested values */
inline std::string make_nested(unsigned kind) {
  tuple_rw *t = tuple_rw::create_new(8, 256, nullptr, hippeus::buffer_tag());
  if (!t)
    abort();
  if (kind)
    t->set_u32(token(genus::u32, 1), 1 + kind);
  if (kind > 1)
    t->set_string(token(genus::text, 2), string_view("nested value", kind % 12));
  if (kind > 3)
    t->set_u16(token(genus::u16, 3), (uint16_t)kind);
  std::string s = nested_bytes(t->take_asis());
  tuple_rw::deleter()(t);
  return s;
}

/* Independent statement of the layout invariants of a tuple_rw (not audit()) */
inline const char *layout(const tuple_rw *t) {
  if (!(t->head_ <= t->pivot_ && t->pivot_ <= t->tail_ && t->tail_ <= t->end_))
    return "head <= pivot <= tail <= end";
  const fptu::schema *s = t->schema_;
  const size_t data_units = t->tail_ - t->pivot_;
  const size_t pre = s ? s->preplaced_units() : 0;
  if (data_units < pre)
    return "preplaced area is inside of the data";
  std::vector<uint8_t> own(data_units, 0);
  for (size_t i = 0; i < pre; ++i)
    own[i] = 1;
  size_t holes = 0, volume = 0;
  auto claim = [&](const void *p, size_t units) -> const char * {
    const details::unit_t *u = (const details::unit_t *)p;
    if (u < &t->area_[t->pivot_ + pre] || u + units > &t->area_[t->tail_])
      return "payload lies inside of the data area";
    size_t k = u - &t->area_[t->pivot_];
    for (size_t i = 0; i < units; ++i)
      if (own[k + i]++)
        return "payloads do not overlap";
    return nullptr;
  };
  for (const details::field_loose *f = t->begin_index(); f < t->end_index(); ++f) {
    if (f->is_hole()) {
      ++holes;
      size_t u = f->hole_get_units();
      volume += u;
      if (u) {
        if (!f->relative.have_payload())
          return "a hole with units has a place";
        if (const char *e = claim(f->relative.payload(), u))
          return e;
      }
      continue;
    }
    genus g = f->type();
    size_t u = details::loose_units_dynamic(g);
    if (stretchy(g)) {
      if (!f->relative.have_payload())
        continue;
      const void *p = f->relative.payload();
      if (p < (const void *)&t->area_[t->pivot_ + pre] || p >= (const void *)&t->area_[t->tail_])
        return "payload lies inside of the data area";
      u = f->relative.payload()->stretchy.brutto_units(g);
      if (!u)
        return "a stored value has size";
    } else if (u == 0)
      continue;
    else if (!f->relative.have_payload())
      return "a loose fixed-size field has a place";
    if (const char *e = claim(f->relative.payload(), u))
      return e;
  }
  if (s)
    for (const token &k : s->tokens())
      if (k.is_preplaced() && stretchy(k.type())) {
        const details::field_preplaced *p = (const details::field_preplaced *)(t->begin_data_bytes() + k.preplaced_offset());
        if (!p->relative.have_payload())
          continue;
        const void *q = p->relative.payload();
        if (q < (const void *)&t->area_[t->pivot_ + pre] || q >= (const void *)&t->area_[t->tail_])
          return "preplaced payload lies inside of the data area";
        size_t u = p->relative.payload()->stretchy.brutto_units(k.type());
        if (!u)
          return "a stored preplaced value has size";
        if (const char *e = claim(q, u))
          return e;
      }
  if (holes != t->junk_.count)
    return "junk count is the number of holes in the index";
  if (volume != t->junk_.volume)
    return "junk volume is the total size of holes";
  for (size_t i = 0; i < data_units; ++i)
    if (!own[i])
      return "every data unit belongs to a field or to a hole";
  return nullptr;
}

struct world {
  std::unique_ptr<fptu::schema> sch;
  std::vector<field> fields;
  tuple_rw *raw = nullptr; /* fixed buffer */
  std::unique_ptr<tuple_rw_managed> man;
  bool check_layout = true;
  unsigned max_units = 1500; /* total payload, see the known finding on big holes */
  unsigned nops = 0;

  ~world() {
    if (raw)
      tuple_rw::deleter()(raw);
  }
  tuple_rw *impl() const { return man ? man->pimpl_ : raw; }
  void log(const std::string &s) {
    if (rt().log.size() < 20000)
      rt().log += " " + s + ";";
  }
  void fail(const std::string &what) {
    static std::string keep;
    keep = what;
    vc_assert(false, keep.c_str());
  }

  val random_value(genus g, bool small = true) {
    val v;
    switch (g) {
    case genus::text:
    case genus::varbin: {
      size_t n;
      switch (R(10)) {
      case 0:
        n = 0;
        break;
      case 1:
        n = small ? R(70) : 240 + R(30);
        break;
      case 2:
        n = small ? R(20) : R(1200);
        break;
      default:
        n = R(14);
      }
      v.bytes.resize(n);
      for (auto &c : v.bytes)
        c = (char)R();
      return v;
    }
    case genus::property: {
      size_t n = one_in(10) ? R(256) : R(9);
      v.bytes.resize(n);
      for (auto &c : v.bytes)
        c = (char)R();
      v.pid = one_in(3) ? 0 : (unsigned)R(256);
      return v;
    }
    case genus::nested: {
      static std::string cache[16];
      unsigned k = (unsigned)R(16);
      if (cache[k].empty())
        cache[k] = make_nested(k);
      v.bytes = cache[k];
      return v;
    }
    default: {
      v.bytes.resize(value_size(g));
      switch (R(5)) {
      case 0:
        break;
      case 1:
        v.bytes = denil_image(g);
        break;
      case 2: /* one byte set: sensitive to partial copies */
        v.bytes[R(v.bytes.size())] = (char)R();
        break;
      default:
        for (auto &c : v.bytes)
          c = (char)R();
      }
      norm(g, v);
      return v;
    }
    }
  }

  void add(const token &k, const std::string &init) {
    field f;
    f.tok = k;
    f.g = k.type();
    f.dn = k.is_discernible_null();
    f.pre = k.is_preplaced();
    f.coll = !f.pre && k.is_collection();
    f.init = init;
    f.index = fields.size();
    if (f.pre && !stretchy(f.g)) {
      val v;
      v.bytes = init;
      f.vals.insert(v);
    }
    fields.push_back(f);
  }

  /* with_schema: preplaced + loose; else loose only */
  void make(bool with_schema, bool managed, unsigned nfields, unsigned items, unsigned bytes) {
    if (with_schema)
      sch = fptu::schema::create();
    for (unsigned i = 0; i < nfields; ++i) {
      /* favour stretchy genera */
      genus g = one_in(2) ? usable()[R(4)] : usable()[R(usable().size())];
      bool dn = R() & 1, coll = one_in(4);
      if (g == genus::nested)
        dn = false; /* null nested with discernible NULL: see DESIGN.md */
      if (with_schema) {
        std::string name = "f" + std::to_string(i);
        if (R() & 1) {
          token k = sch->define_preplaced(std::move(name), g, dn);
          std::string init;
          if (!stretchy(g))
            init = dn ? denil_image(g) : std::string(value_size(g), '\0');
          add(k, init);
        } else
          add(sch->define_loose(std::move(name), g, coll, dn), "");
      } else {
        unsigned id = (unsigned)(one_in(3) ? R(1023) : 10 + i);
        bool dup = false;
        for (auto &f : fields)
          dup |= f.g == g && !f.pre && f.tok.id() == id;
        if (!dup)
          add(token(g, id, coll, dn), "");
      }
    }
    log("schema=" + std::to_string(with_schema) + " managed=" + std::to_string(managed) + " items=" + std::to_string(items) + " bytes=" + std::to_string(bytes));
    for (auto &f : fields)
      log("f" + std::to_string(f.index) + "=" + std::to_string(unsigned(f.g)) + (f.pre ? "p" + std::to_string(f.tok.preplaced_offset()) : "l" + std::to_string(f.tok.id())) + (f.dn ? "d" : "") + (f.coll ? "c" : ""));
    if (managed)
      man.reset(new tuple_rw_managed(items, bytes, sch.get()));
    else
      raw = tuple_rw::create_new(items, bytes, sch.get(), hippeus::buffer_tag());
    if (!impl())
      fail("tuple was not created");
  }

  std::vector<val> read_collection(const field &f) {
    std::vector<val> r;
    auto c = ((const tuple_rw *)impl())->crtp_getter<tuple_rw>::collection(f.tok);
    for (auto it = c.begin(); it != c.end(); ++it)
      r.push_back(read_acc(*it, f.g));
    return r;
  }
  template <class TUP> void compare_one(const TUP &t, const field &f, const char *where) {
    std::string nm = "f" + std::to_string(f.index);
    if (f.coll) {
      std::multiset<val> got;
      auto c = t.collection(f.tok);
      for (auto it = c.begin(); it != c.end(); ++it)
        got.insert(read_acc(*it, f.g));
      if (got != f.vals)
        fail(std::string(where) + ": collection " + nm + " differs: " + std::to_string(got.size()) + " items instead of " + std::to_string(f.vals.size()));
      if (t.is_present(f.tok) != !f.vals.empty())
        fail(std::string(where) + ": is_present of collection " + nm);
      return;
    }
    val got;
    bool have = do_get(t, f.tok, f.g, got);
    bool present = !f.vals.empty();
    val want = present ? *f.vals.begin() : empty_of(f.g);
    if (f.pre && !stretchy(f.g) && f.dn && want.bytes == denil_image(f.g))
      present = false;
    if (present || !f.dn) {
      if (!have)
        fail(std::string(where) + ": field " + nm + " is absent, expected " + hexs(want.bytes));
      if (!(got == want))
        fail(std::string(where) + ": field " + nm + " reads " + hexs(got.bytes) + ", expected " + hexs(want.bytes));
    } else if (have)
      fail(std::string(where) + ": absent field " + nm + " reads " + hexs(got.bytes) + " instead of throwing field_absent");
    if (t.is_present(f.tok) != present)
      fail(std::string(where) + ": is_present of " + nm + " is not " + (present ? "true" : "false"));
  }

  void check() {
    ++rt().asserts;
    tuple_rw *t = impl();
    if (check_layout) {
      if (const char *e = layout(t))
        fail(std::string("layout: ") + e);
    }
    if (const char *e = t->audit())
      fail(std::string("audit: ") + e);
    const tuple_rw *ct = t;
    size_t loose = 0;
    for (auto &f : fields) {
      compare_one(*(const details::crtp_getter<tuple_rw> *)ct, f, "rw");
      if (!f.pre)
        loose += f.vals.size();
    }
    if (t->loose_count() != loose)
      fail("loose_count() is not the number of stored loose fields");
    size_t n = 0;
    for (auto it = t->cbegin_loose(); it != t->cend_loose(); ++it)
      if (it->token_.is_valid() && it->type() != genus::hole)
        ++n;
    (void)n;
    if (one_in(4)) {
      const tuple_ro *ro = t->take_asis();
      if (const char *e = tuple_ro::audit(ro, ro->size(), sch.get(), t->junk_.both == 0))
        fail(std::string("audit of the serialised form: ") + e);
      /* a copy of exactly its size is self-contained */
      exact copy(std::string((const char *)ro, ro->size()));
      const tuple_ro *c = (const tuple_ro *)copy.p.get();
      for (auto &f : fields)
        compare_one(*c, f, "ro");
    }
    if (t->head_ > 1 && t->begin_index() < t->end_index() && t->brutto_size() != 4u * (t->tail_ - t->head_ + 1))
      fail("brutto_size");
  }

  size_t units_now() const { return impl()->tail_ - impl()->pivot_; }

  /* returns false when insufficient_space was thrown (fixed buffer) */
  template <class F> bool guarded(F f) {
    try {
      f();
      return true;
    } catch (const insufficient_space &) {
      if (man)
        fail("insufficient_space from an auto-growing tuple");
      log("insufficient_space");
      return false;
    }
  }
  void op_set(field &f, bool small) {
    val v = random_value(f.g, small);
    log("set f" + std::to_string(f.index) + " " + hexs(v.bytes));
    bool ok = guarded([&] {
      if (man)
        do_set(*man, f.tok, f.g, v);
      else
        do_set(*raw, f.tok, f.g, v);
    });
    if (!ok)
      return;
    f.vals.clear();
    if (f.pre ? !stretchy(f.g) || f.dn || !is_empty(f.g, v) : f.dn || !is_empty(f.g, v))
      f.vals.insert(v);
  }
  void op_insert(field &f, bool small) {
    val v = random_value(f.g, small);
    log("insert f" + std::to_string(f.index) + " " + hexs(v.bytes));
    if (f.g == genus::t32)
      return; /* insert_datetime() takes t64 only */
    bool ok = guarded([&] {
      if (man)
        do_insert(*man, f.tok, f.g, v);
      else
        do_insert(*raw, f.tok, f.g, v);
    });
    if (ok && (f.dn || !is_empty(f.g, v)))
      f.vals.insert(v);
  }
  void op_erase(field &f) {
    log("erase f" + std::to_string(f.index));
    bool was;
    if (f.pre && !stretchy(f.g))
      was = !(f.dn && f.vals.begin()->bytes == denil_image(f.g));
    else
      was = !f.vals.empty();
    bool r = false;
    if (!guarded([&] { r = man ? man->erase(f.tok) : raw->erase(f.tok); }))
      return;
    if (r != was)
      fail("erase() does not tell whether the field was present");
    f.vals.clear();
    if (f.pre && !stretchy(f.g)) {
      val v;
      v.bytes = f.dn ? denil_image(f.g) : std::string(value_size(f.g), '\0');
      f.vals.insert(v);
    }
  }
  void op_erase_one(field &f) {
    if (f.vals.empty())
      return;
    size_t k = R(f.vals.size());
    log("erase f" + std::to_string(f.index) + "[" + std::to_string(k) + "]");
    auto c = impl()->collection(f.tok);
    auto it = c.begin();
    for (size_t i = 0; i < k; ++i)
      ++it;
    val v = read_acc(*it, f.g);
    if (!f.vals.count(v))
      fail("collection item is not one of the inserted values");
    bool r = impl()->erase(it);
    if (!r)
      fail("erase(iterator) of an existing item returns false");
    f.vals.erase(f.vals.find(v));
  }
  void op_optimize() {
    unsigned fl = (unsigned)R(8);
    log("optimize " + std::to_string(fl));
    impl()->optimize(tuple_rw::optimize_flags(fl));
    if ((fl & 1) && (impl()->junk_.count || impl()->junk_.volume))
      fail("compactify leaves holes");
  }
  void op_reset() {
    log("reset");
    impl()->reset();
    for (auto &f : fields) {
      f.vals.clear();
      if (f.pre && !stretchy(f.g)) {
        val v;
        v.bytes = f.init;
        f.vals.insert(v);
      }
    }
  }
  void op_copy() {
    log("copy");
    size_t mi = 1 + R(6), mb = R(200);
    if (man) {
      tuple_rw_managed c = tuple_rw_managed::clone(*man, mi, mb);
      *man = std::move(c);
    } else {
      tuple_rw *c = raw->create_copy(mi, mb, hippeus::buffer_tag());
      tuple_rw::deleter()(raw);
      raw = c;
    }
  }
  void op_reload() {
    log("reload");
    const tuple_ro *ro = impl()->take_asis();
    exact copy(std::string((const char *)ro, ro->size()));
    size_t mi = 1 + R(6), mb = R(200);
    if (man) {
      tuple_rw_managed c(copy.p.get(), copy.n, mi, mb, sch.get());
      *man = std::move(c);
    } else {
      tuple_rw *c = tuple_rw::create_from_buffer(copy.p.get(), copy.n, mi, mb, sch.get(), hippeus::buffer_tag());
      tuple_rw::deleter()(raw);
      raw = c;
    }
  }
  void step(bool small) {
    ++nops;
    field &f = fields[R(fields.size())];
    unsigned what = (unsigned)R(100);
    if (units_now() > max_units)
      what = 96; /* reset */
    if (what < 60) {
      if (f.coll)
        op_insert(f, small);
      else
        op_set(f, small);
    } else if (what < 84) {
      if (f.coll && R(3))
        op_erase_one(f);
      else
        op_erase(f);
    } else if (what < 90)
      op_optimize();
    else if (what < 94)
      op_copy();
    else if (what < 97)
      op_reload();
    if (what == 96 && (one_in(8) || units_now() > max_units))
      op_reset();
    check();
  }
};
} // namespace model
