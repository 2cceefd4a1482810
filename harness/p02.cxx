// P02: index scan returns exactly the first matching descriptor
//LIB
#include "vc.h"
#pragma GCC diagnostic ignored "-Wcpp"
#include SCAN_SRC
#ifdef __SANITIZE_ADDRESS__
#undef _mm_loadu_si128
#endif
using namespace fptu::details;

#ifdef VC_NATIVE
static void native_shape(const field_loose *b, size_t n, uint16_t id, size_t k) {
  if (rt().mode != 2)
    return;
  /* few matches, sometimes only an offset field equal to the id */
  uint8_t *p = (uint8_t *)b;
  unsigned style = rt().rnd() % 4;
  for (size_t i = 0; i < n; ++i) {
    uint16_t d = (uint16_t)rt().rnd();
    if (d == id)
      d++;
    if (style == 1 && rt().rnd() % (n + 1) < 2)
      d = id;
    if (style == 2 && i + 1 == n)
      d = id;
    if (style == 3 && i == k)
      d = id;
    memcpy(p + 4 * i + 2, &d, 2);
    if (rt().rnd() % 3 == 0)
      memcpy(p + 4 * i, &id, 2);
  }
}
#endif
VC(scan) {
  /* whole pages around the index: reads beyond them are violations */
  uint32_t at = (nd_u16("begin_offset") & 1023) * 4u;
  uint32_t n = nd_u16("count");
  VC_NATIVE_ONLY(if (rt().mode == 2 && rt().rnd() % 4) n %= 260;)
  size_t pages = (at + n * 4 + 4095) >> 12;
  vc_assume(pages > 0);
  const uint8_t *buf = (const uint8_t *)nd_buf(pages * 4096, 12, "index");
  uint16_t id = nd_u16("genus_and_id");
  size_t o = nd_u64("o");
  VC_NATIVE_ONLY(o &= ~size_t(3); if (n) o %= n * 4;)
  vc_assume(o % 4 == 0 && o < size_t(1) << 18);
  const field_loose *begin = (const field_loose *)(buf + at);
  const field_loose *end = begin + n;
  VC_NATIVE_ONLY(native_shape(begin, n, id, o / 4);)
  vc_mark("begin", (uint64_t)begin), vc_mark("end", (uint64_t)end), vc_mark("id", id), vc_mark("o", o);
  const field_loose *r = SCAN_FN(begin, end, id);
  if (!r) {
    if (o / 4 < n)
      vc_assert(*(const uint16_t *)(buf + at + o + 2) != id, "null only when no descriptor matches");
  } else {
    size_t d = vc_name((const uint8_t *)r - (const uint8_t *)begin);
    vc_mark("d", d);
    vc_assert(d % 4 == 0 && d / 4 < n, "result is an element of [begin, end)");
    vc_assert(*(const uint16_t *)(buf + at + d + 2) == id, "result matches");
    if (o < d)
      vc_assert(*(const uint16_t *)(buf + at + o + 2) != id, "nothing matches before the result");
    vc_cover("found");
  }
}
/* a hollow tuple: begin > end */
VC(hollow) {
  const uint8_t *buf = (const uint8_t *)nd_buf(4096, 12, "index");
  size_t a = nd_range(0, 4096, "a"), b = nd_range(0, 4096, "b");
  vc_assume(a % 4 == 0 && b % 4 == 0 && a > b);
  uint16_t id = nd_u16("genus_and_id");
  const field_loose *r = SCAN_FN((const field_loose *)(buf + a), (const field_loose *)(buf + b), id);
  vc_assert(r == nullptr, "a hollow range has no fields");
}


#ifdef VC_NATIVE
#include <sys/mman.h>
/* bounded stand-in: every n <= 300, every position of the first match (and no
 * match), every begin offset 0..124 from a page start and every end offset
 * 0..124 from a page end, inaccessible pages around */
VCB(scan_all) {
  rt().once = true;
  uint8_t *m = (uint8_t *)mmap(nullptr, 4 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m, 4096, PROT_NONE);
  mprotect(m + 3 * 4096, 4096, PROT_NONE);
  for (unsigned style = 0; style < 3; ++style)
    for (unsigned place = 0; place < 64; ++place)
      for (size_t n = 0; n <= 300; n += (n < 140 || n > 250) ? 1 : 3) {
        size_t room = (n * 4 + 4095 + (place & 31) * 4) / 4096 * 4096;
        if (room > 2 * 4096)
          continue;
        /* style 0: ids differ everywhere; 1: the offset halves equal the id; 2: ids +-1 */
        const uint16_t id = style == 2 ? 0x8000 : 0x1234 + place;
        uint8_t *lo = place & 32 ? m + 3 * 4096 - n * 4 - (place & 31) * 4 : m + 4096 + (place & 31) * 4;
        if (lo < m + 4096)
          continue;
        uint16_t *w = (uint16_t *)(m + 4096);
        /* everything outside of the range matches */
        for (size_t i = 0; i < 2 * 4096 / 2; ++i)
          w[i] = id;
        uint16_t *v = (uint16_t *)lo;
        for (size_t i = 0; i < n; ++i) {
          v[2 * i] = style == 1 ? id : (uint16_t)(id ^ i);
          v[2 * i + 1] = style == 2 ? (uint16_t)(id + (i & 1 ? 1 : -1)) : (uint16_t)(id ^ (1u << (i & 15)));
        }
        const field_loose *b = (const field_loose *)lo, *e = b + n;
        rt().log = " n=" + std::to_string(n) + " begin%4096=" + std::to_string((uintptr_t)lo & 4095) + " id=" + std::to_string(id);
        vc_assert(SCAN_FN(b, e, id) == nullptr, "null when no descriptor matches");
        for (size_t k = n; k-- > 0;) {
          uint16_t was = v[2 * k + 1];
          v[2 * k + 1] = id;
          const field_loose *r = SCAN_FN(b, e, id);
          if (r != b + k) {
            rt().log += " first_match=" + std::to_string(k) + " result=" + std::to_string(r ? (long)(r - b) : -1);
            vc_assert(false, "the first matching descriptor is returned");
          }
          if ((k & 7) < 6)
            v[2 * k + 1] = was;
        }
      }
  munmap(m, 4 * 4096);
}
#endif
