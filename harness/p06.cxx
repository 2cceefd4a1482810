// P06: the space allocator of a modifiable tuple
//LIB
#include "vc.h"
#include <cstddef>
#define private public
#define protected public
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/internal.h"
#ifndef VC_NATIVE
#include "src/gear.cxx"
#include "src/tablets.cxx"
#endif
#undef private
#undef protected
using namespace fptu;
using namespace fptu::details;

#ifndef VC_NATIVE
/* An arbitrary tuple, one arbitrary unit x of its area and one arbitrary index item j.
 * The unit is either used (no hole covers it), or unallocated, or covered by the hole at the item h. */
enum { max_holes_units = 2047 };
struct ghost {
  tuple_rw *t;
  unsigned head, pivot, tail, end, fixed;
  uint16_t count, volume;
  unsigned x, j, h;
  bool used;
  uint32_t J, H;
  unsigned chunk, chunk_units; /* is used, to be released */
  /* items known to the function: by argument or by a lookup */
  bool on[4];
  unsigned item[4];
  uint32_t was[4];
  /* by trim_hole() */
  unsigned trimmed, trimmed_volume;
  /* the case under consideration */
  bool before, after, at_tail; /* at_tail: the chunk to be released may be at the end of the space */
  unsigned fit; /* of the hole found: 1 = exactly, 2 = larger, 3 = none, 0 = whatever */
  unsigned scan; /* of an empty hole: 1 = found, 2 = none, 0 = whatever */
  unsigned next;  /* the same after the first trim_hole() */
  unsigned first; /* the slot of the first item of the index, 9 = not any, 8 = whatever */
};
static ghost G;

template <typename F> static inline __attribute__((always_inline)) void each(const F &f) {
  if (G.on[0])
    f(0u);
  if (G.on[1])
    f(1u);
  if (G.on[2])
    f(2u);
  if (G.on[3])
    f(3u);
}
static inline bool is_hole_word(uint32_t w) { return w >> 27 == genus::hole; }
static inline unsigned units_of(uint32_t w) { return (w >> 16) & 2047 & -unsigned(is_hole_word(w)); }
static inline unsigned begin_of(unsigned i, uint32_t w) { return i + (w & 0xffff); }
static inline bool in_hole(unsigned x, unsigned i, uint32_t w) { return (x >= begin_of(i, w)) & (x < begin_of(i, w) + units_of(w)); }
static inline uint32_t at(unsigned i) { return G.t->area_[i]; }

/* the invariant of one item: its hole is inside of the area, not at the end of it, and covers nothing used */
static inline bool good_hole(unsigned i, uint32_t w, unsigned from, unsigned upto, unsigned x, bool used) {
  return !is_hole_word(w) | (units_of(w) ? ((w & 0xffff) != 0) & (begin_of(i, w) >= from) & (begin_of(i, w) + units_of(w) < upto) & !(used & in_hole(x, i, w)) : (w & 0xffff) == 0);
}
/* neither overlap nor touch each other */
static inline bool apart(unsigned i, uint32_t a, unsigned k, uint32_t b) {
  return (i == k) | !units_of(a) | !units_of(b) | (begin_of(i, a) + units_of(a) < begin_of(k, b)) | (begin_of(k, b) + units_of(b) < begin_of(i, a));
}
/* the invariant as known about the item i of the index */
static inline void know(unsigned i) {
  const uint32_t w = at(i);
  vc_assume(i >= G.head && i < G.pivot);
  vc_assume(good_hole(i, w, G.pivot + G.fixed, G.tail, G.x, G.used));
  vc_assume(!is_hole_word(w) || (G.count >= 1 && units_of(w) <= G.volume));
  vc_assume(!G.chunk_units || !units_of(w) || begin_of(i, w) + units_of(w) <= G.chunk || begin_of(i, w) >= G.chunk + G.chunk_units);
  if (G.j >= G.head && G.j < G.pivot)
    vc_assume(apart(i, w, G.j, G.J));
  if (G.h >= G.head && G.h < G.pivot)
    vc_assume(apart(i, w, G.h, G.H));
  each([&](unsigned k) {
    vc_assume(apart(i, w, G.item[k], G.was[k]));
    if (i != G.item[k])
      vc_assume(units_of(w) + units_of(G.was[k]) <= G.volume);
    if (i != G.item[k] && is_hole_word(w) && is_hole_word(G.was[k]))
      vc_assume(G.count >= 2);
  });
}
static inline unsigned pick(unsigned slot, const char *name) {
  const unsigned i = nd_u16(name);
  vc_assume(G.first != slot || i == G.head);
  vc_assume(G.first == slot || G.first == 8 || i != G.head);
  return G.first == slot ? G.head : i;
}
static inline void touch(unsigned slot, unsigned i) {
  know(i);
  vc_assert(!G.on[slot], "is called once");
  G.item[slot] = i;
  G.was[slot] = at(i);
  G.on[slot] = true;
}
static inline void any_tuple() {
  G.on[0] = G.on[1] = G.on[2] = G.on[3] = false;
  G.chunk = G.chunk_units = G.trimmed = G.trimmed_volume = 0;
  G.first = G.next = 8;
  G.fit = G.scan = 0;
  G.before = G.after = false;
  G.at_tail = true;
  G.end = nd_u16("end");
  G.head = nd_u16("head");
  G.pivot = nd_u16("pivot");
  G.tail = nd_u16("tail");
  G.fixed = nd_u16("fixed");
  vc_assume((G.head <= G.pivot) & (G.pivot + G.fixed <= G.tail) & (G.tail <= G.end));
  G.t = (tuple_rw *)nd_buf(offsetof(tuple_rw, area_) + G.end * 4, 3, "tuple");
  tuple_rw &t = *G.t;
  t.end_ = G.end;
  t.head_ = G.head;
  t.pivot_ = G.pivot;
  t.tail_ = G.tail;
  G.count = t.junk_.count;
  G.volume = t.junk_.volume;
  vc_assume(G.count <= G.pivot - G.head);
  G.x = nd_u16("x");
  G.j = nd_u16("j");
  G.h = nd_u16("h");
  G.used = nd_bool("used");
  vc_assume(G.x < G.end && G.j < G.pivot);
  G.J = at(G.j);
  G.H = at(G.h);
  vc_assume((G.h < G.pivot) & (!G.used | (G.x < G.tail)));
  if (G.h >= G.head)
    know(G.h);
  if (!G.used & (G.x < G.tail) & (G.x >= G.pivot + G.fixed))
    vc_assume((G.h >= G.head) & in_hole(G.x, G.h, at(G.h)));
  if (G.j >= G.head)
    know(G.j);
}
static inline bool known(unsigned i) {
  bool r = false;
  each([&](unsigned k) { r |= i == G.item[k]; });
  return r;
}
/* in a hole of the current state */
static inline bool covered(unsigned x) {
  bool r = false;
  const unsigned head = G.t->head_;
  if (G.h >= head)
    r |= in_hole(x, G.h, at(G.h));
  each([&](unsigned k) {
    if (G.item[k] >= head)
      r |= in_hole(x, G.item[k], at(G.item[k]));
  });
  if (head < G.head)
    r |= in_hole(x, head, at(head));
  return r;
}
/* the invariant after an operation: `used` is about the unit x */
static inline void check(bool used, bool own_nonhole) {
  const tuple_rw &t = *G.t;
  const unsigned from = G.pivot + G.fixed;
  vc_assert(t.pivot_ == G.pivot && t.end_ == G.end && t.head_ <= G.pivot && t.tail_ >= from && t.tail_ <= G.end, "bounds of the tuple");
  vc_assert(!used || G.x < t.tail_, "used space is before the tail");
  vc_assert(t.head_ + 1 >= G.head, "the index grows by one item at most");
  vc_assert(t.head_ == G.head + G.trimmed || (G.trimmed == 0 && t.head_ + 1 == G.head), "the head of the index");
  if (G.j >= t.head_ && G.h >= t.head_)
    vc_assert(apart(G.j, at(G.j), G.h, at(G.h)), "holes neither overlap nor touch each other");
  if (G.j >= t.head_) {
    vc_assert(good_hole(G.j, at(G.j), from, t.tail_, G.x, used), "holes are inside and cover nothing used");
    if (G.j >= G.head && !known(G.j))
      vc_assert(at(G.j) == G.J, "other items are intact");
  } else if (G.j >= G.head && !own_nonhole)
    vc_assert(is_hole_word(G.J), "only holes are removed from the index");
  vc_assert(used || G.x < from || G.x >= t.tail_ || covered(G.x), "no space is lost");
  int dc = 0, dv = 0;
  each([&](unsigned k) {
    bool dup = false;
    each([&](unsigned m) { dup |= m < k && G.item[m] == G.item[k]; });
    if (!dup) {
      dc += is_hole_word(at(G.item[k])) - is_hole_word(G.was[k]);
      dv += int(units_of(at(G.item[k]))) - int(units_of(G.was[k]));
    }
  });
  if (t.head_ < G.head) {
    dc += is_hole_word(at(t.head_));
    dv += int(units_of(at(t.head_)));
  }
  vc_assert(t.junk_.count == uint16_t(G.count + dc - int(G.trimmed)), "the counter of holes");
  vc_assert(t.junk_.volume == uint16_t(G.volume + dv - int(G.trimmed_volume)), "the volume of holes");
}
static inline void intact() {
  const tuple_rw &t = *G.t;
  vc_assert(t.pivot_ == G.pivot && t.end_ == G.end && t.head_ == G.head && t.tail_ == G.tail && t.junk_.count == G.count && t.junk_.volume == G.volume && at(G.j) == G.J, "a failed operation changes nothing");
}

extern "C" {
/* contracts of the callees, each is proved by its own VC below */
__attribute__((used)) field_loose *contract_lookup_hole(tuple_rw *t, unsigned units) {
  if (G.fit == 3 || (G.fit == 0 && nd_bool("none")))
    return nullptr;
  const unsigned i = nd_u16("found");
  touch(1, i);
  vc_assume(is_hole_word(at(i)) & (units_of(at(i)) >= units));
  if (G.fit == 1)
    vc_assume(units_of(at(i)) == units);
  if (G.fit == 2)
    vc_assume(units_of(at(i)) != units);
  return (field_loose *)&t->area_[i];
}
struct two {
  field_loose *before, *after;
};
static inline void aside(unsigned i, unsigned b, unsigned e, const void *before, const void *after) {
  const uint32_t w = at(i);
  if (i >= G.t->head_ && units_of(w)) {
    vc_assume(before || begin_of(i, w) + units_of(w) != b);
    vc_assume(after || begin_of(i, w) != e);
  }
}
__attribute__((used)) two contract_lookup_adjacent(tuple_rw *t, const unit_t *begin, const unit_t *end) {
  two r = {nullptr, nullptr};
  if (G.before) {
    const unsigned i = pick(1, "before");
    touch(1, i);
    vc_assume(units_of(at(i)) && begin_of(i, at(i)) + units_of(at(i)) == unsigned(begin - t->area_));
    r.before = (field_loose *)&t->area_[i];
  }
  if (G.after) {
    const unsigned i = pick(2, "after");
    touch(2, i);
    vc_assume(units_of(at(i)) && begin_of(i, at(i)) == unsigned(end - t->area_));
    r.after = (field_loose *)&t->area_[i];
  }
  const unsigned b = unsigned(begin - t->area_), e = unsigned(end - t->area_);
  aside(G.j, b, e, r.before, r.after);
  aside(G.h, b, e, r.before, r.after);
  return r;
}
__attribute__((used)) const field_loose *contract_scan(const field_loose *begin, const field_loose *end, uint16_t what) {
  vc_assert(begin == (const field_loose *)&G.t->area_[G.t->head_] && end == (const field_loose *)&G.t->area_[G.t->pivot_], "the whole index is looked up");
  vc_assert(what == genus::hole << 11, "a hole without space is looked up");
  if (G.scan == 2 || (G.scan == 0 && nd_bool("no such")))
    return nullptr;
  const unsigned i = nd_u16("same");
  touch(3, i);
  vc_assume(i >= G.t->head_ && uint16_t(at(i) >> 16) == what);
  return (const field_loose *)&G.t->area_[i];
}
/* removes the first item and the following ones while these are holes without space; and, maybe, the only hole at the end of the space */
static inline void popped(unsigned i, unsigned from, unsigned upto, unsigned last) {
  const uint32_t w = at(i);
  vc_assume(!((i >= from) & (i < upto) & (i != last)) | (is_hole_word(w) & (units_of(w) == 0)));
  /* stops at an item which is to be kept, and the counter is about the rest */
  vc_assume((i != upto) | !is_hole_word(w) | (units_of(w) != 0));
  vc_assume((i < upto) | (i >= G.pivot) | !is_hole_word(w) | (G.t->junk_.count >= 1));
}
__attribute__((used)) void contract_trim(tuple_rw *t, const field_loose *first) {
  vc_assert(first == (const field_loose *)&t->area_[t->head_] && t->head_ < t->pivot_ && is_hole_word(at(t->head_)) && units_of(at(t->head_)) == 0 && t->junk_.count > 0, "requirements of trim_hole()");
  if (G.j >= t->head_ && !known(G.j) && G.j >= G.head)
    vc_assert(!units_of(at(G.j)) || begin_of(G.j, at(G.j)) + units_of(at(G.j)) < t->tail_, "other holes are not at the end of space before trim_hole()");
  const unsigned n = nd_u16("trimmed"), head = t->head_, tail = t->tail_;
  unsigned upto = head + n;
  vc_assume((n >= 1) & (n <= t->junk_.count) & (upto <= t->pivot_));
  each([&](unsigned k) {
    if (G.next == k && !G.trimmed) {
      vc_assume(upto == G.item[k]);
      upto = G.item[k];
    } else
      vc_assume(G.next == 8 || G.trimmed || upto != G.item[k]);
  });
  unsigned last = 0xffff;
  if (!G.at_tail)
    each([&](unsigned k) { vc_assert(G.item[k] < head || !units_of(at(G.item[k])) || begin_of(G.item[k], at(G.item[k])) + units_of(at(G.item[k])) < tail, "no hole is at the end of space before trim_hole()"); });
  if (G.at_tail && nd_bool("the hole at the end")) {
    last = nd_u16("last");
    vc_assume(known(last) && last >= head && last < head + n && units_of(at(last)) && begin_of(last, at(last)) + units_of(at(last)) == tail);
    G.trimmed_volume += units_of(at(last));
    t->junk_.volume -= units_of(at(last));
    t->tail_ -= units_of(at(last));
  }
  G.trimmed += n;
  t->junk_.count -= n;
  t->head_ = upto;
  popped(G.j, head, upto, last);
  popped(G.h, head, upto, last);
  each([&](unsigned k) { popped(G.item[k], head, upto, last); });
}
}

VC(alloc_data) {
  any_tuple();
  const unsigned units = nd_range(1, 65535, "units");
  const relative_payload *r;
  unsigned e;
  VC_TRY(e, r = G.t->alloc_data(units););
  if (e) {
    vc_assert(e == vc_exc("fptu::insufficient_space"), "exception");
    intact();
    return;
  }
  const unsigned c = unsigned((const unit_t *)r - G.t->area_);
  const bool in = G.x >= c && G.x - c < units;
  vc_assert(!in || (G.x >= G.pivot + G.fixed && G.x < G.t->tail_), "the chunk is inside of the tuple");
  vc_assert(!in || !G.used, "the chunk was free");
  check(G.used || in, false);
  vc_cover("alloc_data");
}
static inline __attribute__((always_inline)) void alloc_loose_case(bool data, unsigned fit, unsigned scan = 0) {
  any_tuple();
  G.scan = scan;
  G.fit = fit;
  const unsigned units = data ? nd_range(1, 65535, "units") : 0;
  const tag_t tag = nd_u32("tag");
  const genus g = genus(uint16_t(tag) >> 11);
  const bool inplaced = g == genus::i8 || g == genus::u8 || g == genus::i16 || g == genus::u16;
  vc_assume(g != genus::hole && inplaced == (units == 0));
  const field_loose *r;
  unsigned e;
  VC_TRY(e, r = G.t->alloc_loose(tag, units););
  if (e) {
    vc_assert(e == vc_exc("fptu::insufficient_space"), "exception");
    intact();
    return;
  }
  const unsigned i = unsigned((const unit_t *)r - G.t->area_);
  vc_assert(i >= G.t->head_ && i < G.pivot && (i < G.head || known(i)), "the item is in the index");
  vc_assert(at(i) >> 16 == uint16_t(tag), "descriptor of the item");
  each([&](unsigned k) { vc_assert(G.item[k] != i || is_hole_word(G.was[k]), "the item was free"); });
  const unsigned c = begin_of(i, at(i));
  const bool in = units && G.x >= c && G.x - c < units;
  if (units)
    vc_assert(c != i && (!in || (G.x >= G.pivot + G.fixed && G.x < G.t->tail_)), "the payload is inside of the tuple");
  else
    vc_assert(c == i, "no payload");
  vc_assert(!in || !G.used, "the payload was free");
  check(G.used || in, false);
  vc_cover("alloc_loose");
}
VC(alloc_loose_pure) { alloc_loose_case(false, 0); }
VC(alloc_loose_exactly) { alloc_loose_case(true, 1); }
VC(alloc_loose_larger_reuse) { alloc_loose_case(true, 2, 1); }
VC(alloc_loose_larger_new) { alloc_loose_case(true, 2, 2); }
VC(alloc_loose_tail_reuse) { alloc_loose_case(true, 3, 1); }
VC(alloc_loose_tail_new) { alloc_loose_case(true, 3, 2); }
static inline __attribute__((always_inline)) void release_loose_case(bool data, bool before, bool after, unsigned first, bool at_tail, unsigned next = 8) {
  any_tuple();
  G.first = first;
  G.at_tail = at_tail;
  G.next = next;
  G.before = before;
  G.after = after;
  const unsigned L = pick(0, "item");
  const unsigned units = data ? nd_range(1, max_holes_units, "units") : 0;
  vc_assume(L >= G.head && L < G.pivot && !is_hole_word(at(L)));
  vc_assume(G.volume + units <= max_holes_units && G.count < G.pivot - G.head);
  if (units) {
    G.chunk = begin_of(L, at(L));
    G.chunk_units = units;
    if (at_tail)
      vc_assume(G.chunk + units == G.tail);
    else
      vc_assume(G.chunk + units < G.tail);
    vc_assume(G.chunk != L && G.chunk >= G.pivot + G.fixed && G.chunk + units <= G.tail);
    vc_assume(!(G.x >= G.chunk && G.x - G.chunk < units) || G.used);
    if (G.j >= G.head)
      know(G.j);
    if (G.h >= G.head)
      know(G.h);
  } 
  touch(0, L);
  const bool in = units && G.x >= G.chunk && G.x - G.chunk < units;
  G.t->release_loose((field_loose *)&G.t->area_[L], units);
  check(G.used && !in, G.j == L);
  vc_assert(L < G.t->head_ || is_hole_word(at(L)), "the item is free");
  vc_cover("release_loose");
}
/* by the adjacent holes, by the item which is the first of the index, and whether the released space is the last */
#define CASE(NAME, ...) VC(release_loose_##NAME) { release_loose_case(__VA_ARGS__); }
CASE(pure, false, false, false, 8, false)
CASE(alone, true, false, false, 8, false)
CASE(last, true, false, false, 8, true)
CASE(before0, true, true, false, 0, false)
CASE(before1, true, true, false, 1, false)
CASE(before9, true, true, false, 9, false)
CASE(before0_last, true, true, false, 0, true)
CASE(before1_last, true, true, false, 1, true)
CASE(before9_last, true, true, false, 9, true)
CASE(after0, true, false, true, 0, false)
CASE(after2, true, false, true, 2, false)
CASE(after9, true, false, true, 9, false)
CASE(both0_next1, true, true, true, 0, false, 1)
CASE(both0_next2, true, true, true, 0, false, 2)
CASE(both0_next9, true, true, true, 0, false, 9)
CASE(both1_next0, true, true, true, 1, false, 0)
CASE(both1_next2, true, true, true, 1, false, 2)
CASE(both1_next9, true, true, true, 1, false, 9)
CASE(both2, true, true, true, 2, false)
CASE(both9, true, true, true, 9, false)
static inline __attribute__((always_inline)) void release_data_case(bool before, bool after) {
  any_tuple();
  G.before = before;
  G.after = after;
  const unsigned units = nd_range(1, max_holes_units, "units");
  vc_assume(G.volume + units <= max_holes_units);
  G.chunk = nd_u16("chunk");
  G.chunk_units = units;
  vc_assume(G.chunk >= G.pivot + G.fixed && G.chunk + units <= G.tail);
  const bool in = G.x >= G.chunk && G.x - G.chunk < units;
  vc_assume(!in || G.used);
  if (G.j >= G.head)
    know(G.j);
  if (G.h >= G.head)
    know(G.h);
  unsigned e;
  VC_TRY(e, G.t->release_data((relative_payload *)&G.t->area_[G.chunk], units););
  if (e) {
    vc_assert(e == vc_exc("fptu::insufficient_space"), "exception");
    intact();
    return;
  }
  check(G.used && !in, false);
  vc_cover("release_data");
}
VC(release_data_alone) { release_data_case(false, false); }
VC(release_data_before) { release_data_case(true, false); }
VC(release_data_after) { release_data_case(false, true); }
VC(release_data_both) { release_data_case(true, true); }
#endif
#ifdef VC_NATIVE
#include "src/gear.cxx"
#include <algorithm>
#include <memory>
#include <set>
#include <vector>
/* Small tuples with an arbitrary layout: segments of the space (used or hole), the index in a random order, with empty holes and items without payload. */
namespace {
uint64_t R(uint64_t n) { return rt().rnd() % n; }
struct lay {
  std::vector<uint64_t> mem;
  tuple_rw *t;
  unsigned fixed;
  std::vector<int> owner; /* per unit: -1 used by a chunk, -2 free, -3 reserved, >= 0 used by the item */
  struct chunk {
    unsigned at, units;
    int item;
  };
  std::vector<chunk> used;
  bool tail_hole = false;
  unsigned count() const { unsigned n = 0; for (unsigned i = t->head_; i < t->pivot_; ++i) n += hole(i); return n; }
  unsigned volume() const { unsigned n = 0; for (unsigned i = t->head_; i < t->pivot_; ++i) n += units(i); return n; }
  uint32_t word(unsigned i) const { uint32_t w; memcpy(&w, &t->area_[i], 4); return w; }
  void word(unsigned i, uint32_t w) { memcpy(&t->area_[i], &w, 4); }
  bool hole(unsigned i) const { return word(i) >> 27 == genus::hole; }
  unsigned units(unsigned i) const { return hole(i) ? word(i) >> 16 & 2047 : 0; }
  unsigned begin(unsigned i) const { return i + (word(i) & 0xffff); }
  unsigned end(unsigned i) const { return begin(i) + units(i); }
  gear *g() const { return static_cast<gear *>(t); }
  field_loose *item(unsigned i) const { return (field_loose *)&t->area_[i]; }
  /* foreign: of a loaded image, where holes may touch each other and the tail */
  void make(bool trim, bool foreign = false) {
    const unsigned free_items = R(4);
    struct it {
      unsigned kind, at, units;
    }; /* 0 = empty hole, 1 = hole, 2 = no payload, 3 = payload */
    std::vector<it> items;
    fixed = R(3);
    unsigned pos = fixed;
    bool was_hole = false;
    std::vector<chunk> loose_chunks;
    for (unsigned k = R(7); k--;) {
      unsigned u = 1 + R(R(3) ? 3 : 40);
      unsigned kind = (was_hole && !foreign) || R(2) ? 3 + R(2) : 1;
      if (kind == 4)
        used.push_back({pos, u, -1});
      else
        items.push_back({kind, pos, u});
      was_hole = kind == 1;
      pos += u;
    }
    if (was_hole && !trim && !foreign) {
      used.push_back({pos, 1, -1});
      pos += 1;
    }
    tail_hole = was_hole && trim;
    for (unsigned k = R(4); k--;)
      items.push_back({2 * unsigned(R(2)), 0, 0});
    for (size_t k = items.size(); k > 1; --k)
      std::swap(items[k - 1], items[R(k)]);
    if (trim)
      items.insert(items.begin(), it{0, 0, 0});
    const unsigned head = free_items, pivot = head + items.size(), tail = pivot + pos, end = tail + R(6);
    mem.assign((offsetof(tuple_rw, area_) + end * 4 + 15) / 8, 0xa5a5a5a5a5a5a5a5ull);
    t = (tuple_rw *)mem.data();
    t->schema_ = nullptr;
    t->options_ = 0;
    t->buffer_offset_ = 0;
    t->head_ = head, t->pivot_ = pivot, t->tail_ = tail, t->end_ = end;
    for (auto &c : used)
      c.at += pivot;
    for (unsigned i = 0; i < items.size(); ++i) {
      const unsigned x = head + i;
      const auto &e = items[i];
      if (e.kind <= 1)
        word(x, uint32_t(genus::hole) << 27 | e.units << 16 | (e.units ? pivot + e.at - x : 0));
      else {
        word(x, uint32_t(e.kind == 2 ? genus::u8 : genus::varbin) << 27 | uint32_t(R(100)) << 16 | (e.kind == 3 ? pivot + e.at - x : R(256)));
        if (e.kind == 3)
          used.push_back({pivot + e.at, e.units, int(x)});
      }
    }
    t->junk_.count = count();
    t->junk_.volume = volume();
  }
  /* every unit is used, or in exactly one hole, or behind the tail; no two holes touch; the counters are exact */
  void check(bool merged = true) const {
    vc_assert(t->head_ <= t->pivot_ && t->pivot_ + fixed <= t->tail_ && t->tail_ <= t->end_, "bounds of the tuple");
    std::vector<int> m(t->end_, 0);
    auto mark = [&](unsigned b, unsigned u) {
      for (unsigned x = b; x < b + u; ++x) {
        vc_assert(x >= t->pivot_ + fixed && x < t->tail_, "space is inside of the tuple");
        vc_assert(!m[x], "space is used once");
        m[x] = 1;
      }
    };
    for (const auto &c : used) {
      mark(c.at, c.units);
      if (c.item >= 0)
        vc_assert(unsigned(c.item) >= t->head_ && !hole(c.item) && begin(c.item) == c.at, "an item refers to its space");
    }
    for (unsigned i = t->head_; i < t->pivot_; ++i)
      if (hole(i)) {
        mark(begin(i), units(i));
        vc_assert(units(i) || (word(i) & 0xffff) == 0, "an empty hole refers to nothing");
        if (units(i) && merged) {
          vc_assert(end(i) != t->tail_, "no hole at the end of space");
          for (unsigned k = t->head_; k < t->pivot_; ++k)
            vc_assert(!units(k) || end(i) != begin(k), "holes do not touch each other");
        }
      }
    for (unsigned x = t->pivot_ + fixed; x < t->tail_; ++x)
      vc_assert(m[x], "no space is lost");
    vc_assert(t->junk_.count == count() && t->junk_.volume == volume(), "counters of holes");
  }
  void add(const void *p, unsigned u, int item) { used.push_back({unsigned((const unit_t *)p - t->area_), u, item}); }
};
} // namespace
VCB(lookups) {
  lay a;
  a.make(false);
  a.check();
  for (unsigned u = 1; u < 45; ++u) {
    const field_loose *f = a.g()->lookup_hole<gear::hole_search_mode::best_fit>(u);
    unsigned best = 9999;
    for (unsigned i = a.t->head_; i < a.t->pivot_; ++i)
      if (a.units(i) >= u)
        best = std::min(best, a.units(i));
    vc_assert((f == nullptr) == (best == 9999), "lookup_hole() finds a hole when there is one");
    if (f) {
      const unsigned i = unsigned((const unit_t *)f - a.t->area_);
      vc_assert(i >= a.t->head_ && i < a.t->pivot_ && a.units(i) == best, "lookup_hole() finds a suitable hole");
    }
  }
  for (unsigned b = a.t->pivot_; b < a.t->tail_; ++b)
    for (unsigned e = b + 1; e <= a.t->tail_ && e < b + 6; ++e) {
      const field_loose *before = nullptr, *after = nullptr;
      for (unsigned i = a.t->head_; i < a.t->pivot_; ++i)
        if (a.units(i)) {
          if (a.end(i) == b)
            before = a.item(i);
          if (a.begin(i) == e)
            after = a.item(i);
        }
      const auto r = a.g()->lookup_adjacent_holes(&a.t->area_[b], &a.t->area_[e]);
      vc_assert(r.first == before && r.second == after, "lookup_adjacent_holes() finds the holes around");
    }
}
VCB(trim) {
  lay a;
  a.make(true);
  const unsigned head = a.t->head_, tail = a.t->tail_;
  std::vector<uint32_t> was;
  for (unsigned i = 0; i < a.t->end_; ++i)
    was.push_back(a.word(i));
  a.g()->trim_hole(a.item(head));
  unsigned upto = head + 1, end = tail;
  while (upto < a.t->pivot_ && a.hole(upto) && (a.units(upto) == 0 || (upto < a.t->head_ && a.end(upto) == end))) {
    if (a.units(upto))
      end = a.begin(upto);
    ++upto;
  }
  vc_assert(a.t->head_ == upto && a.t->tail_ == end, "trim_hole() removes the holes at the begin of the index");
  for (unsigned i = 0; i < a.t->end_; ++i)
    vc_assert(was[i] == a.word(i), "trim_hole() changes no item");
  a.check(false);
}
static void history(bool foreign) {
  lay a;
  a.make(false, foreign);
  a.check(!foreign);
  for (unsigned k = 1 + R(12); k--;) {
    const unsigned u = 1 + R(R(3) ? 3 : 30);
    const bool full = a.t->head_ == 0;
    try {
      switch (R(5)) {
      case 0:
        a.add(a.t->alloc_data(u), u, -1);
        break;
      case 1: {
        const unsigned d = R(2) ? u : 0;
        const field_loose *f = a.t->alloc_loose(tag_t(d ? genus::varbin : genus::u8) << 11, d);
        const unsigned i = unsigned((const unit_t *)f - a.t->area_);
        vc_assert(i >= a.t->head_ && i < a.t->pivot_ && (d || (a.word(i) & 0xffff) == 0), "the item is in the index");
        for (const auto &c : a.used)
          vc_assert(c.item != int(i), "the item was free");
        if (d)
          a.used.push_back({a.begin(i), d, int(i)});
        break;
      }
      case 2:
      case 3:
        if (!a.used.empty()) {
          const size_t n = R(a.used.size());
          const auto c = a.used[n];
          if (c.item >= 0)
            a.t->release_loose(a.item(c.item), c.units);
          else
            a.t->release_data((relative_payload *)&a.t->area_[c.at], c.units);
          a.used.erase(a.used.begin() + n);
        }
        break;
      case 4:
        for (unsigned i = a.t->head_; i < a.t->pivot_; ++i)
          if (a.word(i) >> 27 == genus::u8) {
            a.t->release_loose(a.item(i), 0);
            break;
          }
        break;
      }
    } catch (const insufficient_space &) {
    }
    a.check(!foreign);
  }
}
VCB(histories) { history(false); }
VCB(foreign) { history(true); }
#endif
