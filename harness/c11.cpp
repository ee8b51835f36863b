// C11: exponential and trigonometric functions. PART 0-3: float, 4-7: double, sizes 1-4.
#include "kinds.hpp"
namespace {
using namespace dsga;
using T = std::conditional_t<PART / 4 == 0, float, double>;
constexpr size_t N = PART % 4 + 1;
using L = std::numeric_limits<T>;
using ld = long double;
using U = std::conditional_t<sizeof(T) == 4, unsigned, ull>;
// every one-argument function: name, long double reference, tolerance in units in the last place
#define UNARY(X) X(sin, std::sin, 4) X(cos, std::cos, 4) X(tan, std::tan, 4) X(asin, std::asin, 4) X(acos, std::acos, 4) X(atan, std::atan, 4) \
  X(sinh, std::sinh, 4) X(cosh, std::cosh, 4) X(tanh, std::tanh, 4) X(asinh, std::asinh, 4) X(acosh, std::acosh, 4) X(atanh, std::atanh, 4) \
  X(exp, std::exp, 3) X(exp2, std::exp2, 3) X(log, std::log, 3) X(log2, std::log2, 3) X(sqrt, ref_sqrt, 0) X(inversesqrt, ref_rsqrt, 1) X(fast_inversesqrt, ref_rsqrt, sizeof(T) == 4 ? 1 : 3)
ld ref_sqrt(ld x) { return std::sqrt(x); }
ld ref_rsqrt(ld x) { return x == 0 ? std::numeric_limits<ld>::infinity() : 1 / std::sqrt(x); }
enum Fn {
#define X(n, r, t) F_##n,
  UNARY(X)
#undef X
  NFN
};
const char *fn_name(int f) { static const char *n[] = {
#define X(n, r, t) #n,
  UNARY(X)
#undef X
}; return n[f]; }
template <class V> auto apply_fn(int f, const V &v) { switch (f) {
#define X(n, r, t) case F_##n: return dsga::n(v);
  UNARY(X)
#undef X
  } return dsga::sin(v); }
ld ref_fn(int f, T x) { switch (f) {
#define X(n, r, t) case F_##n: return r((ld)x);
  UNARY(X)
#undef X
  } return 0; }
double tol_fn(int f) { static const double t[] = {
#define X(n, r, t) (double)(t),
  UNARY(X)
#undef X
}; return t[f]; }
T from_exp(Case &c, int lo, int hi) { int e = (int)c.range(lo, hi); T m = T(1) + T(c.below(1ull << mant_bits<T>)) / T(1ull << mant_bits<T>); T x = std::ldexp(m, e); return c.coin() ? x : -x; }
// arguments concentrated where each function is neither trivial nor out of range
T gen_arg(Case &c, int f) {
  if (c.chance(1, 10)) return gen_any<T>(c);
  if (c.chance(1, 8)) { T s[] = {T(0), -T(0), T(1), T(-1), T(0.5), T(2), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), -L::max(), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), T(4), T(-2)}; return s[c.below(17)]; }
  int emin = L::min_exponent - 1 - mant_bits<T>, emax = L::max_exponent - 1;
  switch (f) {
    case F_sqrt: case F_inversesqrt: case F_fast_inversesqrt: case F_log: case F_log2: {
      if (c.chance(1, 12)) return from_exp(c, emin, emax);
      if (c.chance(1, 4)) { T r = std::fabs(from_exp(c, emin / 2, emax / 2)); return r * r; } // near perfect squares
      if (c.chance(1, 4)) { T x = T(1); int n = (int)c.range(-60, 60); while (n > 0) x = std::nextafter(x, T(4)), --n; while (n < 0) x = std::nextafter(x, T(0)), ++n; return std::ldexp(x, c.coin() ? 0 : (int)c.range(emin + mant_bits<T> + 2, emax - 1)); }
      return std::fabs(c.coin() ? from_exp(c, emin, emax) : from_exp(c, -8, 8)); }
    case F_asin: case F_acos: case F_atanh: { if (c.chance(1, 12)) return from_exp(c, -2, 3); if (c.chance(1, 4)) { T x = T(1) - T(c.below(1000)) * L::epsilon() / 2; return c.coin() ? x : -x; } return c.coin() ? from_exp(c, -6, -1) : from_exp(c, emin, -1); }
    case F_acosh: { if (c.chance(1, 12)) return from_exp(c, -4, 4); if (c.chance(1, 4)) return T(1) + T(c.below(1000)) * L::epsilon(); return std::fabs(c.coin() ? from_exp(c, 0, 6) : from_exp(c, 0, emax)); }
    case F_exp: case F_exp2: case F_sinh: case F_cosh: { if (c.chance(1, 3)) { T lim = f == F_exp2 ? T(L::max_exponent) : T(L::max_exponent) * T(0.6931471805599453); T x = lim + T(int(c.below(200)) - 150) / T(7); return c.coin() ? x : -x * T(1.05); } if (c.chance(1, 4)) return T(c.range(-40, 40)); return c.coin() ? from_exp(c, -6, sizeof(T) == 4 ? 6 : 9) : from_exp(c, emin, emax); }
    case F_tanh: return c.coin() ? from_exp(c, -5, 5) : from_exp(c, emin, emax);
    default: { if (c.chance(1, 4)) { T x = T(ld(3.14159265358979323846264338327950288L) * (ld)(c.range(-400, 400)) / 4); int n = (int)c.range(-3, 3); while (n > 0) x = std::nextafter(x, L::infinity()), --n; while (n < 0) x = std::nextafter(x, -L::infinity()), ++n; return x; } return c.coin() ? from_exp(c, -4, 5) : from_exp(c, emin, emax); }
  }
}
bool nan(T x) { return x != x; }
// exact distance from the reference in units in the last place of T around the reference
double err_ulps(T r, ld w) {
  if (w != w) return r != r ? 0 : 1e30; if (r != r) return 1e30; T wt = (T)w; if (r == wt && (r != 0 || std::signbit(r) == std::signbit(wt))) return 0; if (r == 0 && wt == 0) return 1e30; // sign of zero
  if (std::isinf(r) || std::isinf(wt)) { T fin = std::isinf(r) ? wt : r; if (std::isinf(fin) || std::signbit(r) != std::signbit(wt)) return 1e30; int e = 0; while (e < 5 && !std::isinf(fin)) fin = std::nextafter(fin, std::signbit(fin) ? -L::infinity() : L::infinity()), ++e; return e; }
  int e; std::frexp(wt, &e); ld ulp = std::ldexp((ld)1, std::max(e, L::min_exponent) - L::digits); return (double)(std::fabs((ld)r - w) / ulp);
}
bool special(T x) { return !std::isfinite(x) || x == 0; }
void unary(Case &c) {
  int f = (int)c.below(NFN); std::array<T, N> a; for (auto &x : a) x = gen_arg(c, f);
  if (f == F_fast_inversesqrt && sizeof(T) == 8) for (auto &x : a) if (x > 0 && x < L::min()) x = x * T(18014398509481984.0);
  NOTE(c, fn_name(f) << " of " << tname<T>() << " " << show(a)); bool inter = false;
  std::array<T, N> sc; for (size_t i = 0; i < N; ++i) {
    volatile T in = a[i]; sc[i] = apply_fn(f, (T)in); ld w = ref_fn(f, a[i]); inter |= std::isfinite((double)w) && !special(a[i]);
    if (a[i] == 0 && (f == F_inversesqrt || f == F_fast_inversesqrt)) { CK(std::isinf(sc[i]) && (std::signbit(a[i]) || sc[i] > 0), fn_name(f) << "(" << show(a[i]) << ") is " << show(sc[i]) << ", expected infinity"); continue; }
    double e = err_ulps(sc[i], w); CK(e <= tol_fn(f) + 0.51, fn_name(f) << "(" << show(a[i]) << ") is " << show(sc[i]) << ", expected " << show((T)w) << " (" << e << " units in the last place away)");
  }
  with_kind<T, N>(c, a, [&](auto &v, const auto &m) {
    auto r = res_arr<T, N>(apply_fn(f, std::as_const(v)));
    for (size_t i = 0; i < N; ++i) { T s = sc[i]; if (!same(m[i], a[i])) { volatile T in = m[i]; s = apply_fn(f, (T)in); }
      CK(same(r[i], s) || (nan(r[i]) && nan(s)), fn_name(f) << " of a vector: component " << i << " (argument " << show(m[i]) << ") is " << show(r[i]) << " but the scalar form gives " << show(s)); CK(same(T(v[i]), m[i]), "the argument changed"); }
  });
  c.label(fn_name(f)); c.nontrivial(inter && (N == 1 || all_distinct(a)));
}
void atan2_prop(Case &c) {
  std::array<T, N> y, x; for (size_t i = 0; i < N; ++i) { y[i] = gen_arg(c, F_sin); x[i] = c.chance(1, 3) ? T(y[i] * T(c.range(-8, 8)) / 4) : gen_arg(c, F_sin); }
  NOTE(c, "atan of y = " << show(y) << ", x = " << show(x)); bool inter = false;
  hk<1100 + N, 6>(c, [&](auto &oy, auto &ox) { auto r = res_arr<T, N>(dsga::atan(std::as_const(oy.get()), std::as_const(ox.get()))); for (size_t i = 0; i < N; ++i) { T s = dsga::atan(T(oy.m[i]), T(ox.m[i])); ld w = std::atan2((ld)oy.m[i], (ld)ox.m[i]); inter |= !special(oy.m[i]) && !special(ox.m[i]); double e = err_ulps(s, w);
    CK(e <= 4.5, "atan(" << show(oy.m[i]) << ", " << show(ox.m[i]) << ") is " << show(s) << ", expected " << show((T)w)); CK(same(r[i], s) || (nan(r[i]) && nan(s)), "atan of vectors: component " << i << " is " << show(r[i]) << ", the scalar form gives " << show(s)); } }, y, x);
  c.nontrivial(inter && (N == 1 || (all_distinct(y) && all_distinct(x))));
}
void pow_prop(Case &c) {
  std::array<T, N> b, e; bool inter = false; auto pos = [&](T v) { v = std::fabs(v); return nan(v) ? T(3) : v; };
  for (size_t i = 0; i < N; ++i) {
    b[i] = pos(gen_arg(c, c.coin() ? F_log : F_sin));
    switch (c.below(4)) { case 0: e[i] = gen_arg(c, F_sin); break; case 1: e[i] = T(c.range(-12, 12)) / T(c.coin() ? 1 : 2); break;
      default: { ld l = std::log2((ld)b[i]); if (!std::isfinite((double)l) || l == 0) { e[i] = from_exp(c, -3, 6); break; } ld target = (ld)(int)c.range(L::min_exponent - mant_bits<T> - 4, L::max_exponent + 2) + (ld)c.below(1000) / 1000; e[i] = (T)((c.coin() ? target : target / 16) / l); } }
    if (b[i] == 0) e[i] = e[i] == 0 || nan(e[i]) ? T(1.5) : std::fabs(e[i]);
  }
  NOTE(c, "pow of " << show(b) << " to " << show(e));
  hk<1140 + N, 6>(c, [&](auto &ob, auto &oe) { std::array<T, N> s; for (size_t i = 0; i < N; ++i) { T x = ob.m[i], y = oe.m[i]; if (x == 0 && !(y > 0)) return; }
    auto r = res_arr<T, N>(dsga::pow(std::as_const(ob.get()), std::as_const(oe.get())));
    for (size_t i = 0; i < N; ++i) { T x = ob.m[i], y = oe.m[i]; s[i] = dsga::pow(x, y); ld w = std::pow((ld)x, (ld)y); inter |= !special(x) && !special(y) && std::isfinite((double)w) && w != 0; double er = err_ulps(s[i], w);
      CK(er <= 3.5, "pow(" << show(x) << ", " << show(y) << ") is " << show(s[i]) << ", expected " << show((T)w) << " (" << er << " units in the last place away)"); CK(same(r[i], s[i]) || (nan(r[i]) && nan(s[i])), "pow of vectors: component " << i << " is " << show(r[i]) << ", the scalar form gives " << show(s[i])); } }, b, e);
  c.nontrivial(inter && (N == 1 || (all_distinct(b) && all_distinct(e))));
}
// 128-bit checks of the square root family: the exact rounding decision
void roots(Case &c) {
  T x = std::fabs(gen_arg(c, F_sqrt)); if (!std::isfinite(x) || x == 0) x = T(2); NOTE(c, "square roots of " << show(x)); volatile T in = x; T s = dsga::sqrt((T)in);
  if constexpr (sizeof(T) == 8) {
    // s is the correctly rounded root exactly when (s - h/2)^2 <= x <= (s + h/2)^2, decided in 128-bit arithmetic on scaled values
    int e; (void)std::frexp(x, &e); e -= e & 1; double m = std::ldexp(x, -e), t = std::ldexp(s, -e / 2); CK(t > 0.7 && t < 2, "sqrt(" << show(x) << ") is " << show(s)); double up = std::nextafter(t, 4.0), dn = std::nextafter(t, 0.0); __float128 hu = ((__float128)t + up) / 2, hd = ((__float128)t + dn) / 2;
    CK(hd * hd <= (__float128)m && (__float128)m <= hu * hu, "sqrt(" << show(x) << ") is " << show(s) << ", which is not the correctly rounded root");
  } else CK(s == (T)std::sqrt((double)x), "sqrt(" << show(x) << ") is " << show(s));
  T r = dsga::inversesqrt((T)in); ld w = 1 / std::sqrt((ld)x); double e = err_ulps(r, w); CK(e <= 0.502, "inversesqrt(" << show(x) << ") is " << show(r) << ", " << e << " units in the last place from the exact value");
  if (sizeof(T) == 4 || x >= L::min()) { T q = dsga::fast_inversesqrt((T)in); double g = err_ulps(q, w); CK(g <= (sizeof(T) == 4 ? 0.51 : 2.6), "fast_inversesqrt(" << show(x) << ") is " << show(q) << ", " << g << " units in the last place away"); }
  c.nontrivial();
}
#define NM(X) ((const char *)[] { static std::string s = std::string("C11.") + X + "." + tname<T>() + std::to_string(N); return s.c_str(); }())
PBT_PROP(NM("unary"), 3, unary); PBT_PROP(NM("atan2"), 0.7, atan2_prop); PBT_PROP(NM("pow"), 1, pow_prop);
#if PART % 4 == 0
PBT_PROP(NM("roots"), 1.5, roots);
#endif
}
