// Generators for scalars and for every kind of vector operand dsga accepts.
#pragma once
#include "pbt.hpp"
#include <dsga.hxx>
#include <cmath>

using pbt::Case; using pbt::show; using pbt::same; using pbt::numeq; using pbt::aborts;
using ull = unsigned long long; using ll = long long; using sz = std::size_t;

template <class T> constexpr const char *tname() {
  if constexpr (std::is_same_v<T, bool>) return "bool"; else if constexpr (std::is_same_v<T, int>) return "int";
  else if constexpr (std::is_same_v<T, unsigned>) return "unsigned"; else if constexpr (std::is_same_v<T, ll>) return "llong";
  else if constexpr (std::is_same_v<T, ull>) return "ullong"; else if constexpr (std::is_same_v<T, sz>) return "size_t";
  else if constexpr (std::is_same_v<T, float>) return "float"; else if constexpr (std::is_same_v<T, double>) return "double";
  else return "?";
}

template <class T> constexpr int mant_bits = sizeof(T) == 4 ? 23 : 52;

template <class T> T from_bits(uint64_t b) {
  if constexpr (sizeof(T) == 4) return std::bit_cast<T>((uint32_t)b); else return std::bit_cast<T>(b);
}
template <class T> uint64_t to_bits(T v) {
  if constexpr (sizeof(T) == 4) return std::bit_cast<uint32_t>(v); else return std::bit_cast<uint64_t>(v);
}

// small, exactly representable values: 0 first
template <class T> T gen_small(Case &c, int lim = 10) {
  if constexpr (std::is_same_v<T, bool>) return c.coin();
  else {
    int k = (int)c.below(2 * lim + 1);
    int v = (k & 1) ? -(k + 1) / 2 : k / 2;
    if constexpr (std::is_unsigned_v<T>) return (T)k;
    else return (T)v;
  }
}

// any finite value of the type, biased to the interesting ones
template <class T> T gen_finite(Case &c) {
  if constexpr (std::is_same_v<T, bool>) return c.coin();
  else if constexpr (std::is_integral_v<T>) {
    using L = std::numeric_limits<T>;
    switch (c.below(6)) {
      case 0: return gen_small<T>(c);
      case 1: return gen_small<T>(c, 1000);
      case 2: return c.coin() ? (T)(L::max() - (T)c.below(4)) : (T)(L::min() + (T)c.below(4));
      case 3: { int k = (int)c.below(sizeof(T) * 8); uint64_t v = (uint64_t)1 << k; v += c.below(3) - 1; if (c.coin()) v = 0 - v; return (T)v; }
      case 4: if constexpr (sizeof(T) == 8) { uint64_t v = ((uint64_t)1 << c.range(52, 62)) + c.below(9) - 4; if (std::is_signed_v<T> && c.coin()) v = 0 - v; return (T)v; } [[fallthrough]];
      default: return (T)c.below(0);
    }
  } else {
    using L = std::numeric_limits<T>; T v = 0;
    switch (c.below(9)) {
      case 0: return gen_small<T>(c);
      case 1: v = (T)c.below(4000) / 4; break;
      case 2: { T sp[] = {T(0), T(1), T(0.5), L::denorm_min(), L::min(), L::max(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, T(2), T(0.25), T(0.75), T(1.5), T(2.5), T(3.5), T(1e10), T(1e-10)}; v = c.pick(sp); break; }
      case 3: { int k = c.range(-3, mant_bits<T> + 3); v = std::ldexp(T(1), k); int d = (int)c.below(7) - 3; for (int i = 0; i < d; ++i) v = std::nextafter(v, L::infinity()); for (int i = 0; i < -d; ++i) v = std::nextafter(v, T(0)); break; }
      case 4: { v = (T)(uint64_t)c.below(mant_bits<T> > 30 ? (1ull << 40) : (1ull << 20)) + T(0.5); int d = (int)c.below(3) - 1; if (d > 0) v = std::nextafter(v, L::infinity()); if (d < 0) v = std::nextafter(v, T(0)); break; }
      case 5: { v = std::ldexp(T(1) + (T)c.below(1u << 23) / T(1u << 23), c.range(-20, 20)); break; }
      case 6: { uint64_t b = c.below(1ull << mant_bits<T>); b |= (uint64_t)(c.below(sizeof(T) == 4 ? 255 : 2047)) << mant_bits<T>; v = from_bits<T>(b); break; }
      case 7: { v = std::ldexp(T(c.below(1u << 20)), c.range(-12, 30)); break; }
      default: { uint64_t b = c.below(1ull << mant_bits<T>); b |= (uint64_t)(c.range(sizeof(T) == 4 ? 100 : 1000, sizeof(T) == 4 ? 154 : 1046)) << mant_bits<T>; v = from_bits<T>(b); }
    }
    if (c.coin()) v = -v;
    return v;
  }
}
// any value of the type including infinities and NaN
template <class T> T gen_any(Case &c) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (c.below(12)) {
      case 10: { T sp[] = {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), -std::numeric_limits<T>::quiet_NaN(), T(-0.0)}; return c.pick(sp); }
      default: return gen_finite<T>(c);
    }
  } else return gen_finite<T>(c);
}
template <class T, size_t C> std::array<T, C> gen_arr_any(Case &c) { std::array<T, C> a; for (auto &x : a) x = gen_any<T>(c); return a; }
template <class T, size_t C> std::array<T, C> gen_arr_small(Case &c, int lim = 10) { std::array<T, C> a; for (auto &x : a) x = gen_small<T>(c, lim); return a; }
template <class T, size_t C> std::array<T, C> gen_arr_finite(Case &c) { std::array<T, C> a; for (auto &x : a) x = gen_finite<T>(c); return a; }

// scalar conversion exactly as C++ does it, only when it is defined
template <class To, class From> bool conv_defined(From v) {
  if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To> && !std::is_same_v<To, bool>) {
    if (v != v) return false;
    long double x = std::trunc((long double)v);
    return x >= (long double)std::numeric_limits<To>::min() && x <= (long double)std::numeric_limits<To>::max();
  } else if constexpr (std::is_same_v<From, double> && std::is_same_v<To, float>) {
    return v != v || std::isinf(v) || std::fabs(v) <= (double)std::numeric_limits<float>::max();
  } else return true;
}

template <class T, size_t C> using bvec = dsga::basic_vector<T, C>;
template <class T, size_t C> bvec<T, C> mk(const std::array<T, C> &a) { bvec<T, C> v{}; for (size_t i = 0; i < C; ++i) v[i] = a[i]; return v; }
template <class V> auto arr_of(const V &v) {               // logical elements by index
  using T = std::remove_cvref_t<decltype(v[0])>; constexpr size_t C = std::remove_cvref_t<V>::size();
  std::array<T, C> a; for (size_t i = 0; i < C; ++i) a[i] = v[i]; return a;
}

template <class A> bool same_arr(const A &a, const A &b) { for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
template <class A> bool numeq_arr(const A &a, const A &b) { for (size_t i = 0; i < a.size(); ++i) if (!numeq(a[i], b[i])) return false; return true; }

constexpr int NKINDS = 9;
inline const char *kind_name(int k) {
  static const char *n[] = {"vector", "vector swizzle", "mutable view", "read-only view", "owning view", "mutable view swizzle", "read-only view swizzle", "repeated-letter swizzle", "repeated-letter view swizzle"};
  return n[k];
}

// An operand of kind K whose logical elements are m; K 7 and 8 change m where the repeated
// letters force it. get() is the operand, m its model, intact() tells that nothing in its
// storage differs from what the constructor put there.
template <int K, class T, size_t C> struct Opnd {
  std::array<T, C> m;
  static constexpr size_t BN = K == 1 ? 4 : K == 7 ? (C == 1 ? 1 : 3) : K == 0 ? C : 1;
  static constexpr size_t VN = (K == 5 || K == 6) ? 4 : K == 8 ? (C == 1 ? 1 : 3) : C;
  static constexpr bool is_view = K == 2 || K == 3 || K == 5 || K == 6 || K == 8;
  static constexpr bool mut = K != 3 && K != 6;
  T a[8], a0[8];
  dsga::basic_vector<T, BN> b{};
  std::conditional_t<is_view, dsga::basic_view<mut, T, VN>, int> w{};
  std::conditional_t<K == 4, dsga::view_vector<T, C>, int> o{};
  static constexpr int at(size_t i) {                     // physical position of logical element i
    constexpr int P1[4][4] = {{2}, {3, 1}, {2, 3, 0}, {3, 2, 0, 1}}, P5[4][4] = {{3}, {2, 0}, {1, 3, 2}, {2, 0, 3, 1}};
    constexpr int P7[4][4] = {{0}, {1, 1}, {2, 0, 2}, {0, 2, 2, 0}}, P8[4][4] = {{0}, {2, 2}, {1, 1, 2}, {2, 1, 2, 1}};
    if (K == 1) return P1[C - 1][i];
    if (K == 5 || K == 6) return P5[C - 1][i];
    if (K == 7) return P7[C - 1][i];
    if (K == 8) return P8[C - 1][i];
    return (int)i;
  }
  explicit Opnd(const std::array<T, C> &m_) : m(m_) {
    if constexpr (K >= 7) for (size_t i = C; i-- > 0;) for (size_t j = 0; j < i; ++j) if (at(i) == at(j)) { m[i] = m[j]; break; }
    for (auto &x : a) x = T(1);
    for (size_t i = 0; i < C; ++i) { if constexpr (is_view) a[2 + at(i)] = m[i]; else if constexpr (K != 4) b[at(i)] = m[i]; }
    if constexpr (is_view) w.reset(a + 2);
    if constexpr (K == 4) for (size_t i = 0; i < C; ++i) o[i] = m[i];
    for (int i = 0; i < 8; ++i) a0[i] = a[i];
  }
  Opnd(const Opnd &) = delete; Opnd &operator=(const Opnd &) = delete;
  auto &get() {
    if constexpr (K == 0) return b;
    else if constexpr (K == 1) { if constexpr (C == 1) return b.z; else if constexpr (C == 2) return b.wy; else if constexpr (C == 3) return b.zwx; else return b.wzxy; }
    else if constexpr (K == 2 || K == 3) return w;
    else if constexpr (K == 4) return o;
    else if constexpr (K == 5 || K == 6) { if constexpr (C == 1) return w.w; else if constexpr (C == 2) return w.zx; else if constexpr (C == 3) return w.ywz; else return w.zxwy; }
    else if constexpr (K == 7) { if constexpr (C == 1) return b.x; else if constexpr (C == 2) return b.yy; else if constexpr (C == 3) return b.zxz; else return b.xzzx; }
    else { if constexpr (C == 1) return w.x; else if constexpr (C == 2) return w.zz; else if constexpr (C == 3) return w.yyz; else return w.zyzy; }
  }
  bool intact() const {
    if constexpr (is_view) { for (int i = 0; i < 8; ++i) if (!same(a[i], a0[i])) return false; return true; }
    else if constexpr (K == 4) { for (size_t i = 0; i < C; ++i) if (!same(o[i], m[i])) return false; return true; }
    else { bool hit[4] = {};
      for (size_t i = 0; i < C; ++i) { if (!same(b[at(i)], m[i])) return false; hit[at(i)] = true; }
      for (size_t i = 0; i < BN; ++i) if (!hit[i] && !(b[i] == T{})) return false;
      return true; }
  }
};
template <int K, class T, size_t C, class F> void as_kind(const std::array<T, C> &m, F &&f) { Opnd<K, T, C> o(m); f(o.get(), o.m); }
template <class T, size_t C, class F> void with_kind(Case &c, const std::array<T, C> &m, F &&f) {
  int k = (int)c.below(NKINDS); NOTE(c, "  operand kind: " << kind_name(k)); if (k) c.label(kind_name(k));
  switch (k) {
    case 0: as_kind<0>(m, f); break; case 1: as_kind<1>(m, f); break; case 2: as_kind<2>(m, f); break;
    case 3: as_kind<3>(m, f); break; case 4: as_kind<4>(m, f); break; case 5: as_kind<5>(m, f); break;
    case 6: as_kind<6>(m, f); break; case 7: as_kind<7>(m, f); break; case 8: as_kind<8>(m, f); break;
  }
}
// a pair of operands: every kind occurs in both positions
template <class T1, class T2, size_t C1, size_t C2, class F> void with_pair(Case &c, const std::array<T1, C1> &m1, const std::array<T2, C2> &m2, F &&f) {
  int k = (int)c.below(10);
  auto go = [&]<int A, int B>() {
    NOTE(c, "  operand kinds: " << kind_name(A) << " / " << kind_name(B)); if (A) c.label(kind_name(A));
    as_kind<A>(m1, [&](auto &&x, const auto &mx) { as_kind<B>(m2, [&](auto &&y, const auto &my) { f(x, mx, y, my); }); });
  };
  switch (k) {
    case 0: go.template operator()<0, 0>(); break; case 1: go.template operator()<1, 4>(); break;
    case 2: go.template operator()<2, 1>(); break; case 3: go.template operator()<3, 5>(); break;
    case 4: go.template operator()<4, 7>(); break; case 5: go.template operator()<5, 2>(); break;
    case 6: go.template operator()<6, 3>(); break; case 7: go.template operator()<7, 8>(); break;
    case 8: go.template operator()<8, 6>(); break; case 9: go.template operator()<0, 1>(); break;
  }
}
template <class A> bool has_nonzero(const A &a) { for (auto x : a) if (x != 0) return true; return false; }
template <class A> bool all_distinct(const A &a) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) if (a[i] == a[j]) return false; return true; }

#define FOR_C(M) M(1) M(2) M(3) M(4)

// Deterministic spread of operand kinds: variant 0 is all plain vectors, the others are picked by a
// hash of SEED, so that over all (function, type, size) combinations every kind and pair occurs.
constexpr unsigned hmix(unsigned a) { a ^= a >> 16; a *= 0x7feb352dU; a ^= a >> 15; a *= 0x846ca68bU; a ^= a >> 16; return a; }
template <unsigned SEED, int V, size_t I> constexpr int hkind = V == 0 ? 0 : (int)(hmix(SEED * 64 + V * 8 + (unsigned)I + 1) % 9);
template <class T> constexpr unsigned tnum = std::is_same_v<T, bool> ? 0 : std::is_same_v<T, int> ? 1 : std::is_same_v<T, unsigned> ? 2 : std::is_same_v<T, ll> ? 3 : std::is_same_v<T, ull> ? 4 : std::is_same_v<T, sz> ? 5 : std::is_same_v<T, float> ? 6 : 7;
template <unsigned SEED, int V, class F, class... A> void hk_run(Case &c, F &&f, const A &...arrs) {
  [&]<size_t... I>(std::index_sequence<I...>) {
    std::tuple<Opnd<hkind<SEED, V, I>, typename A::value_type, std::tuple_size_v<A>>...> ops(arrs...);
    NOTE(c, [&] { std::string s = "  kinds:"; ((s += std::string(" ") + kind_name(hkind<SEED, V, I>) + ";"), ...); return s; }());
    std::apply(f, ops);
    CK((std::get<I>(ops).intact() && ...), "an input operand or memory next to it was modified");
  }(std::index_sequence_for<A...>{});
}
template <unsigned SEED, int NV, class F, class... A> void hk(Case &c, F &&f, const A &...arrs) {
  switch (c.below(NV)) {
    case 0: hk_run<SEED, 0>(c, f, arrs...); break;
    case 1: if constexpr (NV > 1) hk_run<SEED, 1>(c, f, arrs...); break;
    case 2: if constexpr (NV > 2) hk_run<SEED, 2>(c, f, arrs...); break;
    case 3: if constexpr (NV > 3) hk_run<SEED, 3>(c, f, arrs...); break;
    case 4: if constexpr (NV > 4) hk_run<SEED, 4>(c, f, arrs...); break;
    case 5: if constexpr (NV > 5) hk_run<SEED, 5>(c, f, arrs...); break;
  }
}
#ifndef NVAR
#define NVAR 3
#endif

// elements of a function result; for one component both a scalar and a one-component vector are fine
template <class R, size_t N, class V> std::array<R, N> res_arr(const V &v) {
  constexpr bool ok = std::is_same_v<V, dsga::basic_vector<R, N>> || (N == 1 && std::is_same_v<V, R>);
  CK(ok, "result has the wrong type, size or element type");
  std::array<R, N> a{};
  if constexpr (ok) { if constexpr (std::is_same_v<V, R>) a[0] = v; else for (size_t i = 0; i < N; ++i) a[i] = v[i]; }
  return a;
}
// distance in units in the last place; equal and NaN/NaN give 0, NaN against a number gives a huge value
template <class T> double ulp_dist(T a, T b) {
  if (numeq(a, b)) return 0;
  if (a != a || b != b) return 1e300;
  auto ord = [](T x) { auto i = (int64_t)to_bits(x); if constexpr (sizeof(T) == 4) i = (int32_t)(uint32_t)i; int64_t lim = sizeof(T) == 4 ? (int64_t)std::numeric_limits<int32_t>::min() : std::numeric_limits<int64_t>::min(); return i < 0 ? lim - i : i; };
  __int128 d = (__int128)ord(a) - ord(b); return (double)(d < 0 ? -d : d);
}
template <class T, size_t N, class G> std::array<T, N> gen_arr_with(G &&g) { std::array<T, N> a; for (auto &x : a) x = g(); return a; }
