// P14: string_view
#include "vc.h"
#include "fast_positive/tuples/api.h"
#include "fast_positive/tuples/internal.h"
#include "fast_positive/tuples/string_view.h"
#include <stdexcept>
#include <string>
using fptu::string_view;
static constexpr size_t lim = 300000;

/* all six operators and compare() agree with the sign */
static void signs(const string_view &a, const string_view &b, int want) {
  const intptr_t c = string_view::compare(a, b);
  vc_assert((c < 0) == (want < 0) && (c > 0) == (want > 0) && (c == 0) == (want == 0), "compare()");
  vc_assert((a == b) == (want == 0) && (a != b) == (want != 0), "equality");
  vc_assert((a < b) == (want < 0) && (a > b) == (want > 0), "less and greater");
  vc_assert((a <= b) == (want <= 0) && (a >= b) == (want >= 0), "less or equal, greater or equal");
}
VC(same_length_differ) {
  const size_t n = nd_range(1, lim, "n");
  const size_t p = nd_range(0, lim - 1, "p");
  vc_assume(p < n);
  char *const x = (char *)nd_buf(n, 0, "x");
  char *const y = (char *)nd_buf(n, 0, "y");
  memcpy(y, x, p);
  const uint8_t u = uint8_t(x[p]), v = nd_u8("v");
  vc_assume(u != v);
  y[p] = char(v);
  signs(string_view(x, n), string_view(y, n), u < v ? -1 : 1);
}
VC(same_content) {
  const size_t n = nd_range(1, lim, "n");
  char *const x = (char *)nd_buf(n, 0, "x");
  char *const y = (char *)nd_buf(n, 0, "y");
  memcpy(y, x, n);
  signs(string_view(x, n), string_view(y, n), 0);
  signs(string_view(x, n), string_view(x, x + n), 0);
}
VC(lengths) {
  const size_t n = nd_range(0, lim, "n"), m = nd_range(0, lim, "m");
  vc_assume(n != m);
  char *const x = (char *)nd_buf(lim, 0, "x");
  char *const y = (char *)nd_buf(lim, 0, "y");
  signs(string_view(x, n), string_view(y, m), n < m ? -1 : 1);
  signs(string_view(), string_view(y, m), -1);
  signs(string_view(x, n), string_view(), 1);
  signs(string_view(), string_view(), 0);
  signs(string_view(x, size_t(0)), string_view(y, y), 0);
}
VC(access) {
  const size_t n = nd_range(0, lim, "n");
  const size_t k = nd_range(0, lim + 5, "k");
  char *const x = (char *)nd_buf(lim, 0, "x");
  const string_view a(x, n), b(x, x + n), nil, nul(nullptr, n);
  vc_assert(a.data() == x && a.length() == n && a.size() == n && a.empty() == (n == 0) && !a.nil(), "view of pointer and length");
  vc_assert(b.data() == x && b.length() == n && b.size() == n && b.empty() == (n == 0) && !b.nil(), "view of a range");
  vc_assert(nil.nil() && nil.empty() && nil.length() == 0 && nil.begin() == nil.end(), "nil view");
  vc_assert(nul.nil() && nul.empty() && nul.length() == 0, "view of null");
  vc_assert(a.begin() == x && a.end() == x + n && a.cbegin() == x && a.cend() == x + n, "range of a view");
  if (k < n)
    vc_assert(&a[k] == x + k, "element");
  if (n) {
    vc_assert(&a.front() == x && &a.back() == x + n - 1, "first and last");
  }
  string_view p(a), q;
  p.swap(q);
  vc_assert(p.nil() && q.data() == x && q.length() == n, "swap");
}

#ifdef VC_NATIVE
#include "src/misc.cxx"
#include <algorithm>
VCB(views) {
  for (unsigned i = 0; i < 300; ++i) {
    std::string s[3];
    for (auto &t : s) {
      t.resize(rt().rnd() % 9 == 0 ? rt().rnd() % 400 : rt().rnd() % 5);
      for (auto &c : t)
        c = char(rt().rnd() % 4 ? 'a' + rt().rnd() % 2 : rt().rnd());
    }
    if (rt().rnd() % 3 == 0)
      s[1] = s[0];
    const string_view a(s[0]), b(s[1]), c(s[2]);
    auto want = [](const std::string &x, const std::string &y) {
      if (x.size() != y.size())
        return x.size() < y.size() ? -1 : 1;
      const int d = x.compare(y);
      return d < 0 ? -1 : d > 0;
    };
    signs(a, b, want(s[0], s[1]));
    signs(b, c, want(s[1], s[2]));
    const int w = want(s[0], s[1]);
    vc_assert(a.operator==(s[1]) == !w && a.operator!=(s[1]) == !!w && a.operator<(s[1]) == (w < 0) && a.operator>(s[1]) == (w > 0) && a.operator<=(s[1]) == (w <= 0) && a.operator>=(s[1]) == (w >= 0), "against std::string");
    vc_assert(::operator==(s[0], b) == !w && ::operator!=(s[0], b) == !!w && ::operator<(s[0], b) == (w < 0) && ::operator>(s[0], b) == (w > 0) && ::operator<=(s[0], b) == (w <= 0) && ::operator>=(s[0], b) == (w >= 0), "std::string against");
    vc_assert(::operator==(a, s[1]) == !w && ::operator!=(a, s[1]) == !!w && ::operator<(a, s[1]) == (w < 0) && ::operator>(a, s[1]) == (w > 0) && ::operator<=(a, s[1]) == (w <= 0) && ::operator>=(a, s[1]) == (w >= 0), "against std::string, free operators");
    vc_assert(string_view::compare(s[0], b) == string_view::compare(a, b) && string_view::compare(a, s[1]) == string_view::compare(a, b), "compare with std::string");
    vc_assert(std::string(a) == s[0], "to std::string");
    if (!w)
      vc_assert(a.hash_value() == b.hash_value() && std::hash<string_view>()(a) == std::hash<string_view>()(b), "hash of equal views");
    vc_assert(string_view(s[0].c_str()).length() == strlen(s[0].c_str()), "view of a C string");
    vc_assert(std::equal(s[0].rbegin(), s[0].rend(), a.rbegin(), a.rend()), "reverse iteration");
    for (size_t k = 0; k < s[0].size() + 3; ++k) {
      bool thrown = false;
      try {
        vc_assert(&a.at(k) == s[0].data() + k, "at()");
      } catch (const std::out_of_range &) {
        thrown = true;
      }
      vc_assert(thrown == (k >= s[0].size()), "at() throws outside only");
    }
    /* hexadecimal text */
    const std::string h = fptu::hexadecimal(s[0].data(), s[0].size());
    vc_assert(h.size() == s[0].size() * 2, "hexadecimal length");
    for (size_t k = 0; k < s[0].size(); ++k) {
      char t[3];
      snprintf(t, 3, "%02x", uint8_t(s[0][k]));
      vc_assert(h.compare(2 * k, 2, t) == 0, "hexadecimal digits");
    }
  }
}
#endif
