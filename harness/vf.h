// A small property-based testing engine.
//
//  * every random decision of a case is a bounded integer "choice"; a case is
//    a pure function of its choice sequence, so replaying and shrinking work
//    on the sequence (delete / zero / reduce) and need no per-type shrinkers;
//  * cases run in forked workers: an assert, a sanitizer report, a signal or
//    a case that burns too much CPU time is a failing case, not a lost run;
//  * corpus-guided part: with -fsanitize-coverage=trace-pc the engine keeps
//    sequences that reach new code and mutates them.
#ifndef VF_H
#define VF_H

#include <algorithm>
#include <array>
#include <cassert>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include <utility>
#include <vector>

namespace vf {

using u64 = std::uint64_t;

inline u64 splitmix(u64 &s) {
  u64 z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ULL) {
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline u64 hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

// ---------------------------------------------------------------- failures
struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

// ---------------------------------------------------------------- choices
constexpr size_t Max_Choices = 1u << 18;

struct SharedCase {          // lives in memory shared with the parent
  volatile u64 test, index;
  volatile u64 nm;
  volatile u64 busy;
  u64 choices[Max_Choices];
  char message[4096];
};

class Source {
public:
  Source(u64 seed, SharedCase *sc) : _s{seed}, _sc{sc} { _sc->nm = 0; }
  Source(const std::vector<u64> &prefix, bool extend, u64 seed, SharedCase *sc)
    : _s{seed}, _sc{sc}, _replay{&prefix}, _extend{extend} { _sc->nm = 0; }

  // uniform in [0, max]
  u64 draw(u64 max) {
    u64 v;
    if (_replay && _pos < _replay->size()) {
      v = (*_replay)[_pos];
      if (max != ~0ULL && v > max) { v = _extend ? v % (max + 1) : max; }
    } else if (_replay && !_extend) {
      v = 0;
    } else {
      v = splitmix(_s);
      if (max != ~0ULL) { v %= (max + 1); }
    }
    ++_pos;
    if (_sc->nm < Max_Choices) {
      _sc->choices[_sc->nm] = v;
      _sc->nm = _sc->nm + 1;
    } else { throw Discard{}; }
    return v;
  }
private:
  u64 _s;
  SharedCase *_sc;
  const std::vector<u64> *_replay = nullptr;
  bool _extend = false;
  size_t _pos = 0;
};

class Ctx {
public:
  Ctx(Source &s, bool verbose) : src(s), _verbose{verbose} {}

  // -- generators (all shrink towards the simplest value)
  u64 draw(u64 max) { return src.draw(max); }
  // integer in [lo, hi]; shrinks towards 0 if it is inside, else towards lo
  long i(long lo, long hi) {
    assert(lo <= hi);
    if (lo >= 0 || hi < 0) { return lo + long(draw(u64(hi - lo))); }
    u64 v = draw(u64(hi - lo));        // 0 -> 0, then alternate
    long m = std::min(-lo, hi);
    if (v <= u64(2 * m)) { return (v & 1) ? -long((v + 1) / 2) : long(v / 2); }
    long rest = long(v) - 2 * m;
    return (-lo > hi) ? -(m + rest) : m + rest;
  }
  bool flag(unsigned num = 1, unsigned den = 2) { // shrinks to false
    return draw(den - 1) >= den - num;
  }
  bool yes(unsigned num, unsigned den) { return flag(num, den); }
  template <typename T> const T& pick(const std::vector<T> &v) {
    return v[draw(v.size() - 1)];
  }
  template <typename T> T pick(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size() - 1));
  }
  // a length in [lo, hi], small ones are more probable
  long len(long lo, long hi) {
    u64 k = draw(2);
    long span = hi - lo;
    if (k == 0) { return lo + long(draw(u64(std::min(span, 4L)))); }
    if (k == 1) { return lo + long(draw(u64(std::min(span, std::max(4L, span / 4))))); }
    return lo + long(draw(u64(span)));
  }
  double unit() { return double(draw((1ULL << 53) - 1)) / double(1ULL << 53); } // [0,1)
  // a real number in [lo, hi]
  double real(double lo, double hi) {
    switch (draw(3)) {
    case 0: { // coarse grid
      return lo + (hi - lo) * double(draw(8)) / 8.0; }
    case 1: { // fine "round" grid
      return lo + (hi - lo) * double(draw(1000)) / 1000.0; }
    default: return lo + (hi - lo) * unit();
    }
  }
  double prob() { return real(0, 1); }
  double angle() { // (-pi; pi]
    switch (draw(3)) {
    case 0: { long k = i(-7, 8); return k * M_PI / 8; }
    case 1: { long k = i(-179, 180); return k * M_PI / 180; }
    default: return M_PI - 2 * M_PI * unit();
    }
  }

  // -- statistics
  void nontrivial(bool v = true) { if (v) _nontrivial = true; }
  bool is_nontrivial() const { return _nontrivial; }
  void label(const std::string &l) { _labels.push_back(l); }
  const std::vector<std::string> &labels() const { return _labels; }

  // -- description of the case (built only when it is to be shown)
  bool verbose() const { return _verbose; }
  std::ostream &log() { if (_file) { return *_file; } return _log; }
  void log_to(const std::string &path) { _file = std::make_unique<std::ofstream>(path); }
  void log_flush() { if (_file) { _file->flush(); } }
  std::string text() const { return _log.str(); }

  Source &src;
private:
  bool _verbose, _nontrivial = false;
  std::vector<std::string> _labels;
  std::ostringstream _log;
  std::unique_ptr<std::ofstream> _file; // a crash must not lose the text
};

#define VF_LOG(ctx, what) \
  do { if ((ctx).verbose()) { (ctx).log() << std::setprecision(17) << what; (ctx).log_flush(); } } while (0)
#define VF_CHECK(cond, ...)                                             \
  do { if (!(cond)) { std::ostringstream vf_os;                         \
    vf_os << std::setprecision(17) << __VA_ARGS__ << "   [" #cond "]";         \
    throw ::vf::Failure(vf_os.str()); } } while (0)
#define VF_FAIL(what)                                                   \
  do { std::ostringstream vf_os; vf_os << std::setprecision(17) << what; \
    throw ::vf::Failure(vf_os.str()); } while (0)

// ---------------------------------------------------------------- registry
struct Test {
  std::string name;
  std::string rule;      // what makes a case non-trivial
  long quick, thorough;  // numbers of cases
  std::function<void(Ctx&)> fn;
  bool probe = false;    // a fixed input: a candidate known finding
};
inline std::vector<Test> &tests() { static std::vector<Test> t; return t; }
struct Reg {
  Reg(const char *n, const char *rule, long q, long t, std::function<void(Ctx&)> f,
      bool probe = false) {
    tests().push_back({n, rule, q, t, std::move(f), probe});
  }
};
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_TEST(name, rule, quick, thorough)                            \
  static void VF_CAT(vf_t_, name)(::vf::Ctx &);                         \
  static ::vf::Reg VF_CAT(vf_r_, name){#name, rule, quick, thorough,    \
                                       VF_CAT(vf_t_, name)};            \
  static void VF_CAT(vf_t_, name)(::vf::Ctx &c)
#define VF_PROBE(name, rule)                                            \
  static void VF_CAT(vf_t_, name)(::vf::Ctx &);                         \
  static ::vf::Reg VF_CAT(vf_r_, name){#name, rule, 1, 1,               \
                                       VF_CAT(vf_t_, name), true};      \
  static void VF_CAT(vf_t_, name)(::vf::Ctx &c)

// ---------------------------------------------------------------- coverage
struct Cov {
  static constexpr size_t Size = 1 << 16;
  unsigned char map[Size];
  bool on = false;
};
inline Cov &cov() { static Cov c; return c; }

} // namespace vf

#ifdef VF_COVERAGE
extern "C" __attribute__((no_sanitize_coverage, no_sanitize("address")))
void __sanitizer_cov_trace_pc() {
  static vf::Cov *c = nullptr;
  if (!c) { static bool in = false; if (in) return; in = true; c = &vf::cov(); in = false; }
  if (!c->on) return;
  auto pc = reinterpret_cast<std::uintptr_t>(__builtin_return_address(0));
  c->map[(pc ^ (pc >> 16)) & (vf::Cov::Size - 1)] = 1;
}
#endif

#include "vf_random.h"
#include "vf_runner.h"

#endif
