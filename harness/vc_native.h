/* native runtime of the harness vocabulary: replay + random search */
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cxxabi.h>
#include <exception>
#include <map>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

struct vc_skip {};
struct vc_rt {
  uint64_t s = 1;
  int mode = 0; /* 0: hints exact, 1: hints perturbed, 2: random */
  std::map<std::string, std::vector<std::string>> hints;
  std::map<std::string, unsigned> occ;
  std::vector<void *> bufs;
  std::string log;
  std::map<std::string, unsigned> excs;
  const char *fn = "";
  unsigned long trials = 0, done = 0, asserts = 0;
  bool once = false;
  uint64_t rnd() {
    s ^= s << 13, s ^= s >> 7, s ^= s << 17;
    return s * 0x2545F4914F6CDD1DULL;
  }
};
inline vc_rt &rt() {
  static vc_rt *r = new vc_rt;
  return *r;
}
inline const std::string *vc_hint(const char *name) {
  auto &r = rt();
  unsigned k = r.occ[name]++;
  if (r.mode == 2)
    return nullptr;
  if (r.mode == 1 && r.rnd() % 8 == 0)
    return nullptr;
  auto i = r.hints.find(name);
  if (i == r.hints.end() || k >= i->second.size())
    return nullptr;
  return &i->second[k];
}
inline void vc_log(const char *name, unsigned long long v) {
  char b[96];
  snprintf(b, sizeof b, " %s=%llu", name, v);
  if (rt().log.size() < 6000)
    rt().log += b;
}
inline uint64_t vc_pick(unsigned bits) {
  auto &r = rt();
  uint64_t x;
  switch (r.rnd() % 8) {
  case 0:
    x = r.rnd() % 4;
    break;
  case 1:
    x = r.rnd() % 64;
    break;
  case 2:
    x = r.rnd() % 5000;
    break;
  case 3: {
    unsigned k = r.rnd() % (bits + 1);
    x = (k < 64 ? (uint64_t(1) << k) : 0) + (r.rnd() % 3) - 1;
    break;
  }
  case 4: {
    unsigned k = r.rnd() % (bits + 1);
    x = ~((k < 64 ? (uint64_t(1) << k) : 0) + (r.rnd() % 3) - 1);
    break;
  }
  case 5:
    x = r.rnd() >> (r.rnd() % 64);
    break;
  case 6: {
    uint64_t p = 1;
    unsigned k = r.rnd() % 20;
    while (k--)
      p *= 10;
    x = p + (r.rnd() % 3) - 1;
    break;
  }
  default:
    x = r.rnd();
  }
  return bits >= 64 ? x : x & ((uint64_t(1) << bits) - 1);
}
inline uint64_t vc_nd(const char *name, unsigned bits) {
  uint64_t v;
  if (const std::string *h = vc_hint(name))
    v = strtoull(h->c_str(), nullptr, 10);
  else
    v = vc_pick(bits);
  if (bits < 64)
    v &= (uint64_t(1) << bits) - 1;
  vc_log(name, v);
  return v;
}
inline uint64_t nd_u64(const char *n) { return vc_nd(n, 64); }
inline uint32_t nd_u32(const char *n) { return (uint32_t)vc_nd(n, 32); }
inline uint16_t nd_u16(const char *n) { return (uint16_t)vc_nd(n, 16); }
inline uint8_t nd_u8(const char *n) { return (uint8_t)vc_nd(n, 8); }
inline bool nd_bool(const char *n) { return vc_nd(n, 1) & 1; }
inline double nd_f64(const char *n) {
  uint64_t v;
  auto &r = rt();
  if (const std::string *h = vc_hint(n))
    v = strtoull(h->c_str(), nullptr, 10);
  else {
    double d;
    switch (r.rnd() % 5) {
    case 0:
      v = r.rnd();
      break;
    case 1:
      d = (double)(int64_t)vc_pick(64);
      memcpy(&v, &d, 8);
      break;
    case 2:
      d = (double)(int64_t)vc_pick(32) / 1000.0;
      memcpy(&v, &d, 8);
      break;
    case 3:
      d = ldexp((double)(r.rnd() >> 11), (int)(r.rnd() % 80) - 70);
      memcpy(&v, &d, 8);
      break;
    default: {
      static const uint64_t special[] = {0, 1ull << 63, 0x7ff0000000000000ull,
                                         0xfff0000000000000ull, 1, 0x3ff0000000000000ull,
                                         0x7fefffffffffffffull, 0x43f0000000000000ull, 0x41f0000000000000ull};
      v = special[r.rnd() % (sizeof special / 8)] + (r.rnd() % 3 - 1) * (r.rnd() & 1);
    }
    }
  }
  vc_log(n, v);
  double d;
  memcpy(&d, &v, 8);
  return d;
}
inline float nd_f32(const char *n) {
  uint32_t v;
  auto &r = rt();
  if (const std::string *h = vc_hint(n))
    v = (uint32_t)strtoull(h->c_str(), nullptr, 10);
  else if (r.rnd() & 1)
    v = (uint32_t)r.rnd();
  else {
    float f = (float)(int64_t)vc_pick(40);
    memcpy(&v, &f, 4);
  }
  vc_log(n, v);
  float f;
  memcpy(&f, &v, 4);
  return f;
}
inline void vc_assume(bool c) {
  if (!c)
    throw vc_skip();
}
inline uint64_t nd_range(uint64_t lo, uint64_t hi, const char *name) {
  auto &r = rt();
  uint64_t v;
  if (const std::string *h = vc_hint(name)) {
    v = strtoull(h->c_str(), nullptr, 10);
    if (v < lo || v > hi)
      v = lo;
  } else {
    uint64_t w = hi - lo;
    switch (r.rnd() % 6) {
    case 0:
      v = lo + (w > 3 ? r.rnd() % 4 : r.rnd() % (w + 1));
      break;
    case 1:
      v = hi - (w > 3 ? r.rnd() % 4 : r.rnd() % (w + 1));
      break;
    case 2:
      v = lo + (w > 63 ? r.rnd() % 64 : r.rnd() % (w + 1));
      break;
    default: {
      v = vc_pick(64);
      if (v < lo || v > hi)
        v = w == ~uint64_t(0) ? v : lo + v % (w + 1);
    }
    }
  }
  vc_log(name, v);
  return v;
}
inline void *nd_buf(size_t n, unsigned align_log2, const char *name) {
  auto &r = rt();
  if (n > (16u << 20))
    throw vc_skip();
  /* exact-size allocation so that ASAN sees every stray access */
  void *p = nullptr;
  size_t al = size_t(1) << align_log2;
  if (al < 16)
    al = 16;
  if (posix_memalign(&p, al, n ? n : 1))
    throw vc_skip();
  r.bufs.push_back(p);
  const std::string *h = vc_hint(name);
  uint8_t *b = (uint8_t *)p;
  unsigned style = r.rnd() % 4;
  for (size_t i = 0; i < n; ++i)
    b[i] = style == 0 ? (uint8_t)r.rnd() : style == 1 ? (uint8_t)(r.rnd() % 3) : style == 2 ? (uint8_t)((r.rnd() % 7) ? 0 : r.rnd()) : (uint8_t)(r.rnd() % 5 ? r.rnd() : 0xff);
  if (h) {
    size_t m = h->size() / 2;
    for (size_t i = 0; i < n && i < m; ++i)
      b[i] = (uint8_t)strtoul(h->substr(2 * i, 2).c_str(), nullptr, 16);
    if (r.mode == 1 && n)
      for (unsigned k = r.rnd() % 3; k; --k)
        b[r.rnd() % n] = (uint8_t)r.rnd();
  }
  vc_log(name, n);
  return p;
}
inline void vc_finish(int code, const std::string &what) {
  auto &r = rt();
  printf("FAIL %s: %s; inputs:%s\n", r.fn, what.c_str(), r.log.c_str());
  for (size_t k = 0; k < r.bufs.size() && k < 8; ++k)
    (void)0;
  fflush(stdout);
  _exit(code);
}
inline void vc_assert(bool c, const char *what) {
  ++rt().asserts;
  if (!c)
    vc_finish(3, std::string("postcondition violated: ") + what);
}
inline void vc_cover(const char *) {}
inline void vc_opaque(const void *) {}
inline void vc_mark(const char *, uint64_t) {}
inline uint64_t vc_name(uint64_t x) { return x; }
inline void vc_havoc(void *, size_t) {}
inline bool vc_inside(const void *p, const void *o, size_t n) {
  return (uintptr_t)p >= (uintptr_t)o && (uintptr_t)p <= (uintptr_t)o + n;
}
inline std::string vc_norm(std::string s) {
  size_t k = s.rfind("::");
  if (k != std::string::npos)
    s = s.substr(k + 2);
  return s;
}
inline unsigned vc_exc(const char *name) {
  auto &m = rt().excs;
  std::string s = vc_norm(name);
  auto i = m.find(s);
  if (i != m.end())
    return i->second;
  unsigned id = (unsigned)m.size() + 1;
  m[s] = id;
  return id;
}
inline unsigned vc_caught(void) {
  const std::type_info *t = abi::__cxa_current_exception_type();
  if (!t)
    return vc_exc("?");
  int st = 0;
  char *d = abi::__cxa_demangle(t->name(), 0, 0, &st);
  std::string s = d ? d : t->name();
  free(d);
  return vc_exc(s.c_str());
}
#define VC_TRY(excvar, ...)                                                    \
  do {                                                                         \
    excvar = 0;                                                                \
    try {                                                                      \
      __VA_ARGS__;                                                             \
    } catch (const vc_skip &) {                                                \
      throw;                                                                   \
    } catch (...) {                                                            \
      excvar = vc_caught();                                                    \
    }                                                                          \
  } while (0)

struct vc_entry {
  const char *name;
  void (*fn)();
};
static std::vector<vc_entry> &vc_entries() {
  static std::vector<vc_entry> *v = new std::vector<vc_entry>;
  return *v;
}
struct vc_reg {
  vc_reg(const char *n, void (*f)()) { vc_entries().push_back({n, f}); }
};
#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_set_death_callback(void (*)(void));
#endif
static void vc_death() {
  auto &r = rt();
  printf("FAIL %s: memory error / abort in the real code; inputs:%s\n", r.fn, r.log.c_str());
  fflush(stdout);
}
static void vc_sig(int s) {
  auto &r = rt();
  printf("FAIL %s: %s in the real code; inputs:%s\n", r.fn, s == SIGALRM ? "no termination within 20 s" : s == SIGFPE ? "SIGFPE" : "fatal signal", r.log.c_str());
  fflush(stdout);
  _exit(4);
}
/* argv: seed seconds names(comma separated or *) hintfile */
static int vc_main(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  double secs = argc > 2 ? atof(argv[2]) : 5;
  std::string names = argc > 3 ? argv[3] : "*";
  auto &r = rt();
  r.s = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
  if (argc > 4) {
    FILE *f = fopen(argv[4], "r");
    static char line[1 << 20];
    while (f && fgets(line, sizeof line, f)) {
      char *e = strchr(line, '=');
      if (!e)
        continue;
      *e = 0;
      char *v = e + 1;
      v[strcspn(v, "\r\n")] = 0;
      r.hints[line].push_back(v);
    }
    if (f)
      fclose(f);
  }
#ifdef __SANITIZE_ADDRESS__
  __asan_set_death_callback(vc_death);
#else
  signal(SIGSEGV, vc_sig);
  signal(SIGBUS, vc_sig);
#endif
  signal(SIGABRT, vc_sig);
  signal(SIGFPE, vc_sig);
  signal(SIGALRM, vc_sig);
  std::vector<vc_entry> sel;
  for (auto &e : vc_entries())
    if (names == "*" || ("," + names + ",").find("," + std::string(e.name) + ",") != std::string::npos)
      sel.push_back(e);
  for (auto &e : sel) {
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    r.fn = e.name;
    r.trials = r.done = r.asserts = 0;
    r.once = false;
    for (unsigned long t = 0;; ++t) {
      r.mode = r.hints.empty() ? 2 : (t == 0 ? 0 : t < 3000 ? 1 : 2);
      r.occ.clear();
      r.log.clear();
      ++r.trials;
      if (t % 64 == 0)
        alarm(strstr(e.name, "bounded_") ? 600 : 20);
      try {
        e.fn();
        ++r.done;
      } catch (const vc_skip &) {
      } catch (...) {
        vc_finish(3, "unexpected exception " + std::string(abi::__cxa_current_exception_type() ? abi::__cxa_current_exception_type()->name() : "?"));
      }
      for (void *p : r.bufs)
        free(p);
      r.bufs.clear();
      if (r.once)
        break;
      if (t % 64 == 0) {
        clock_gettime(CLOCK_MONOTONIC, &b);
        if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs / sel.size())
          break;
      }
    }
    printf("NATIVE %s trials=%lu completed=%lu asserts=%lu\n", e.name, r.trials, r.done, r.asserts);
  }
  return 0;
}
int main(int argc, char **argv) { return vc_main(argc, argv); }
#define VCB(name) VC(bounded_##name)
#define VC(name)                                                               \
  extern "C" void VC_##name();                                                 \
  static vc_reg vc_reg_##name(#name, VC_##name);                               \
  extern "C" void VC_##name()
