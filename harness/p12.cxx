// P12: date and time
#include "vc.h"
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/internal.h"
#include <ctime>
#include <sys/time.h>
#include <climits>
/* the clock under the library: any moment, either clock */
struct vc_clock {
  uint64_t sec[2], nsec[2];
  unsigned asked[2], other;
};
static vc_clock clk;
static int vc_clock_gettime(clockid_t id, struct timespec *ts) {
  const unsigned k = id == CLOCK_REALTIME_COARSE;
  if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)
    clk.other += 1;
  clk.asked[k] += 1;
  ts->tv_sec = time_t(clk.sec[k]);
  ts->tv_nsec = long(clk.nsec[k]);
  return 0;
}
static uint64_t res_sec, res_nsec;
static int res_rc;
static int vc_clock_getres(clockid_t, struct timespec *ts) {
  ts->tv_sec = time_t(res_sec);
  ts->tv_nsec = long(res_nsec);
  return res_rc;
}
#define clock_gettime vc_clock_gettime
#define clock_getres vc_clock_getres
#define private public
#include "fast_positive/tuples/types/datetime.h"
#include "src/time.cxx"
#undef private
#undef clock_gettime
#undef clock_getres
using fptu::datetime_t;
#ifdef VC_NATIVE
namespace fptu {
std::string format(const char *, ...) { return {}; }
} // namespace fptu
#endif

/* fraction f of 2^-32 s denotes n units of 1/F s: the greatest not above n */
template <uint64_t F> static bool floor_of(uint64_t f, uint64_t n) { return f <= UINT32_MAX && f == (n << 32) / F; }
template <uint64_t F> static bool floor_units(uint64_t n, uint64_t f) { return n < F && n == (f * F) >> 32; }

VC(fraction_ns) {
  const uint64_t n = nd_range(0, 999999999, "n");
  const uint64_t f = nd_range(0, UINT32_MAX, "f");
  vc_assert(floor_of<1000000000>(datetime_t::ns2fractional(n), n), "ns2fractional");
  vc_assert(floor_units<1000000000>(datetime_t::fractional2ns(f), f), "fractional2ns");
}
VC(fraction_us) {
  const uint64_t n = nd_range(0, 999999, "n");
  const uint64_t f = nd_range(0, UINT32_MAX, "f");
  vc_assert(floor_of<1000000>(datetime_t::us2fractional(n), n), "us2fractional");
  vc_assert(floor_units<1000000>(datetime_t::fractional2us(f), f), "fractional2us");
}
VC(fraction_ms) {
  const uint64_t n = nd_range(0, 999, "n");
  const uint64_t f = nd_range(0, UINT32_MAX, "f");
  vc_assert(floor_of<1000>(datetime_t::ms2fractional(n), n), "ms2fractional");
  vc_assert(floor_units<1000>(datetime_t::fractional2ms(f), f), "fractional2ms");
}
template <uint64_t F> static bool is_moment(const datetime_t &t, uint64_t n) {
  return t.utc_seconds() == uint32_t(n / F) && floor_of<F>(t.fractional(), n % F) && t.fixedpoint_32dot32() == (uint64_t(t.utc_seconds()) << 32 | t.fractional());
}
VC(from_units) {
  const uint64_t n = nd_u64("n");
  vc_assert(is_moment<1000>(datetime_t::from_milliseconds(n), n), "from_milliseconds");
  vc_assert(is_moment<1000000>(datetime_t::from_usec(n), n), "from_usec");
  vc_assert(is_moment<10000000>(datetime_t::from_100ns(n), n), "from_100ns");
  vc_assert(is_moment<1000000000>(datetime_t::from_nsec(n), n), "from_nsec");
  vc_assert(is_moment<1>(datetime_t::from_seconds(unsigned(n)), uint32_t(n)), "from_seconds");
  vc_assert(datetime_t::from_fixedpoint_32dot32(n).fixedpoint_32dot32() == n, "from_fixedpoint");
}
VC(from_timespec) {
  const uint64_t s = nd_range(0, UINT32_MAX, "s");
  const uint64_t n = nd_range(0, 999999999, "n");
  struct timespec ts;
  ts.tv_sec = time_t(s);
  ts.tv_nsec = long(n);
  const datetime_t t = datetime_t::from_timespec(ts);
  vc_assert(t.utc_seconds() == s && floor_of<1000000000>(t.fractional(), n), "from_timespec");
  const time_t tt = time_t(s);
  vc_assert(datetime_t(&tt).fixedpoint_32dot32() == s << 32, "from time_t");
}
VC(from_timeval) {
  const uint64_t s = nd_range(0, UINT32_MAX, "s");
  const uint64_t n = nd_range(0, 999999, "n");
  struct timeval tv;
  tv.tv_sec = time_t(s);
  tv.tv_usec = long(n);
  const datetime_t t = datetime_t::from_timeval(tv);
  vc_assert(t.utc_seconds() == s && floor_of<1000000>(t.fractional(), n), "from_timeval");
}
VC(order) {
  const uint64_t a = nd_u64("a"), b = nd_u64("b");
  const datetime_t x = datetime_t::from_fixedpoint_32dot32(a), y = datetime_t::from_fixedpoint_32dot32(b);
  vc_assert((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "order of moments");
  fptu_datetime_C c = x;
  vc_assert(c.fixedpoint == a && c.utc == uint32_t(a >> 32) && c.fractional == uint32_t(a), "C view");
  datetime_t z(c);
  vc_assert(z == x, "from the C view");
  z = fptu_datetime_C(y);
  vc_assert(z == y, "assignment of the C view");
}
static void any_clock() {
  clk.sec[0] = nd_range(0, UINT32_MAX, "sec_fine");
  clk.sec[1] = nd_range(0, UINT32_MAX, "sec_coarse");
  clk.nsec[0] = nd_range(0, 999999999, "ns_fine");
  clk.nsec[1] = nd_range(0, 999999999, "ns_coarse");
  clk.asked[0] = clk.asked[1] = clk.other = 0;
  res_rc = nd_bool("no_coarse") ? -1 : 0;
  res_sec = nd_range(0, 1, "res_sec");
  res_nsec = nd_range(1, 999999999, "res");
  fptu_clock_init();
}
VC(now) {
  any_clock();
  const int grain = int(nd_u32("grain"));
  const bool coarse_works = res_rc == 0 && res_sec == 0;
  const fptu_datetime_C t = fptu_now(grain);
  const unsigned bits = grain >= 0 ? 0 : grain > -32 ? unsigned(-grain) : 32;
  vc_assert(clk.other == 0 && clk.asked[0] + clk.asked[1] == 1, "one clock is asked once");
  const unsigned k = clk.asked[1];
  if (k)
    vc_assert(coarse_works, "an unusable coarse clock is not used");
  if (k && grain >= 0)
    vc_assert(uint64_t(grain) >= res_nsec, "the coarse clock has the requested precision");
  const uint64_t f = (clk.nsec[k] << 32) / 1000000000;
  vc_assert(t.utc == uint32_t(clk.sec[k]), "seconds of the clock");
  vc_assert(t.fractional == uint32_t(f >> bits << bits), "fraction of the clock with the low bits cleared");
}
VC(now_fine) {
  any_clock();
  const fptu_datetime_C t = fptu_now_fine();
  vc_assert(clk.other == 0 && clk.asked[0] == 1 && clk.asked[1] == 0, "the fine clock is asked once");
  vc_assert(t.utc == uint32_t(clk.sec[0]) && t.fractional == uint32_t((clk.nsec[0] << 32) / 1000000000), "now of the fine clock");
}
VC(now_coarse) {
  any_clock();
  const fptu_datetime_C t = fptu_now_coarse();
  const unsigned k = clk.asked[1];
  vc_assert(clk.other == 0 && clk.asked[0] + clk.asked[1] == 1, "one clock is asked once");
  vc_assert(t.utc == uint32_t(clk.sec[k]) && t.fractional == uint32_t((clk.nsec[k] << 32) / 1000000000), "now of the coarse clock");
}
/* there and back is off by one unit at most; the order is kept */
template <uint64_t F> static void back() {
  const uint64_t n = nd_range(0, F - 1, "n");
  const uint64_t f = (n << 32) / F, m = (f * F) >> 32;
  vc_assert(m == n || m + 1 == n, "there and back");
}
VC(back_ns) { back<1000000000>(); }
VC(back_us) { back<1000000>(); }
VC(back_ms) { back<1000>(); }
