// Small property-based testing engine: every case is decoded from a sequence of bounded
// choices, so that one mechanism gives seeded generation, replay, shrinking and fuzzing.
#pragma once
#include <algorithm>
#include <tuple>
#include <utility>
#include <memory>
#include <cmath>
#include <iterator>
#include <cstddef>
#include <concepts>
#include <stdexcept>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>
#include <array>
#include <type_traits>
#include <limits>
#include <bit>
#include <csetjmp>
#include <csignal>
#include <functional>

namespace pbt {

struct Failure { std::string msg; };

inline uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}
inline uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }

class Case {
public:
  enum Mode { GENERATE, REPLAY, BYTES };
  Mode mode = GENERATE;
  uint64_t rng = 0;
  std::vector<uint64_t> choices;       // recorded (GENERATE/BYTES) or given (REPLAY)
  std::vector<uint64_t> used;          // REPLAY: normalised choices actually consumed
  size_t pos = 0;
  const uint8_t *bytes = nullptr; size_t nbytes = 0;
  bool verbose = false;
  std::string log;
  bool nontriv = false;
  const char *labels[16]; int nlabels = 0;

  uint64_t next() { rng += 0x9E3779B97F4A7C15ull; uint64_t x = rng; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

  // uniform in [0,n); n==0 means all 64 bits
  uint64_t below(uint64_t n) {
    if (n == 1) return 0;
    uint64_t v;
    if (mode == GENERATE) { v = n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : next(); choices.push_back(v); }
    else if (mode == BYTES) {
      int need = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
      v = 0;
      for (int i = 0; i < need; ++i) { uint64_t b = pos < nbytes ? bytes[pos++] : 0; v |= b << (8 * i); }
      if (n) v %= n;
      choices.push_back(v);
    } else {
      v = pos < choices.size() ? choices[pos] : 0; ++pos;
      if (n) v %= n;
      used.push_back(v);
    }
    return v;
  }
  bool coin() { return below(2) != 0; }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // false is the simple outcome
  int range(int lo, int hi) { return lo + (int)below((uint64_t)((long long)hi - lo + 1)); }
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
  template <class T> T pick(std::initializer_list<T> a) { return *(a.begin() + below(a.size())); }

  void label(const char *l) { if (nlabels < 16) labels[nlabels++] = l; }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
};

using PropFn = void (*)(Case &);
struct Prop { const char *name; PropFn fn; double weight; };
std::vector<Prop> &registry();
struct Reg { Reg(const char *n, PropFn f, double w) { registry().push_back({n, f, w}); } };

template <class T> std::string show(const T &v) {
  std::ostringstream o;
  if constexpr (std::is_same_v<T, bool>) o << (v ? "true" : "false");
  else if constexpr (std::is_floating_point_v<T>) o << std::setprecision(std::numeric_limits<T>::max_digits10) << v << (sizeof(T) == 4 ? "f" : "");
  else if constexpr (std::is_same_v<T, unsigned __int128> || std::is_same_v<T, __int128>) o << (long double)v;
  else if constexpr (std::is_enum_v<T>) o << (long long)v;
  else o << v;
  return o.str();
}
template <class T, size_t N> std::string show(const std::array<T, N> &a) {
  std::string s = "["; for (size_t i = 0; i < N; ++i) { if (i) s += ", "; s += show(a[i]); } return s + "]";
}
template <class T> std::string show(const std::vector<T> &a) {
  std::string s = "["; for (size_t i = 0; i < a.size(); ++i) { if (i) s += ", "; s += show((T)a[i]); } return s + "]";
}

// bit-identical, except that any NaN equals any NaN
template <class T> bool same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    if (a != a || b != b) return (a != a) && (b != b);
    return std::memcmp(&a, &b, sizeof(T)) == 0;
  } else return a == b;
}
// numerically equal (zeros equal, NaN equals NaN)
template <class T> bool numeq(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) { if (a != a || b != b) return (a != a) && (b != b); }
  return a == b;
}

// nested abort trap: returns 0 if f ran, 1 if it aborted (assert / terminate)
extern sigjmp_buf *trap_buf; inline int trap_signal = 0;   // the signal behind the last aborts() that was true
template <class F> bool aborts(F &&f) {
  sigjmp_buf *saved = trap_buf; sigjmp_buf here; volatile bool ab = false; int sg;
  if ((sg = sigsetjmp(here, 1)) == 0) { trap_buf = &here; f(); } else { ab = true; trap_signal = sg; }
  trap_buf = saved; return ab;
}

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// register property NAME (string "Cnn.what") run by FN
#define PBT_PROP(NAME, WEIGHT, FN) static ::pbt::Reg PBT_CAT(pbt_reg_, __COUNTER__)(NAME, FN, WEIGHT)
#define NOTE(c, ...) do { if ((c).verbose) { std::ostringstream o_; o_ << __VA_ARGS__; (c).log += o_.str(); (c).log += "\n"; } } while (0)
#define CK(cond, ...) do { if (!(cond)) { std::ostringstream o_; o_ << __VA_ARGS__; throw ::pbt::Failure{o_.str()}; } } while (0)
