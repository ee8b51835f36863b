// C21: cxcm, the scalar mathematics library inside the header. PART 0: float, 1: double: run time. 2, 3: constant evaluation (g++). 4: integers and double-double arithmetic.
#include <cstring>
#include "pbt.hpp"
#include <dsga.hxx>
#include <bit>
#include <cmath>
#include <cfenv>
#ifndef VSEED
#define VSEED 1
#endif
#ifndef NROW
#define NROW 300
#endif
namespace {
using pbt::Case; using pbt::show; namespace cx = dsga::cxcm; namespace rx = dsga::cxcm::relaxed;
using ll = long long; using ull = unsigned long long; using ld = long double;
template <class T> using bits_t = std::conditional_t<sizeof(T) == 4, unsigned, ull>;
template <class T> T from_bits(ull b) { return std::bit_cast<T>((bits_t<T>)b); }
template <class T> bits_t<T> to_bits(T x) { return std::bit_cast<bits_t<T>>(x); }
template <class T> bool eq(T a, T b) { return a == b || (a != a && b != b); }
template <class T> bool eqz(T a, T b) { return (a == b && (a != T(0) || std::signbit(a) == std::signbit(b))) || (a != a && b != b); }   // and the sign of zero
// references: exact by construction
template <class T> T ref_round_even(T x) { return std::nearbyint(x); }   // round-to-nearest mode is in force
template <class T> T ref_fract(T x) { return std::isfinite(x) ? T(x - T(std::floor(x))) : x; }
template <class T> double ulps(T a, ld want) { if (a != a || want != want) return a != a && want != want ? 0 : 1e9; if (std::isinf(a) || std::isinf(want)) return (ld)a == want ? 0 : 1e9; int e; std::frexp(want, &e); e = std::max(e, std::numeric_limits<T>::min_exponent); return (double)std::fabs(((ld)a - want) / std::ldexp((ld)1, e - std::numeric_limits<T>::digits)); }
#if PART < 2
using T = std::conditional_t<PART == 0, float, double>; using L = std::numeric_limits<T>; using B = bits_t<T>;
constexpr int MB = L::digits - 1, EB = PART == 0 ? 8 : 11, BIAS = L::max_exponent - 1;
T with_exp(Case &c, int lo, int hi) { return from_bits<T>(((ull)c.below(2) << (MB + EB)) | ((ull)(c.range(lo, hi) + BIAS) << MB) | (c.coin() ? c.below(1ull << MB) : c.below(8) << (MB - 3))); }
T value(Case &c) {
  switch (c.below(10)) {
    case 0: return T(c.range(-20, 20)) / T(2); case 1: return T(c.range(-2000001, 2000001)) / T(2); case 2: return with_exp(c, -2, MB + 2);
    case 3: { T x = T(c.range(-40, 40)) / T(2); return std::nextafter(x, c.coin() ? T(1e9) : T(-1e9)); } case 4: { T x = std::ldexp(T(1), c.range(MB - 3, MB + 2)) * T(c.coin() ? 1 : -1); int k = (int)c.below(4); while (k--) x = std::nextafter(x, c.coin() ? L::infinity() : -L::infinity()); return x; }
    case 5: { T x = c.pick({T(0), L::infinity(), L::max(), L::min(), L::denorm_min(), L::quiet_NaN(), L::epsilon(), std::nextafter(L::min(), T(0))}); return c.coin() ? -x : x; }
    case 6: return with_exp(c, -BIAS + 1, BIAS); case 7: return from_bits<T>(c.below(1ull << (MB + EB)) | ((ull)c.below(2) << (MB + EB))); case 8: return from_bits<T>(((ull)c.below(2) << (MB + EB)) | c.below(1ull << MB)); default: return with_exp(c, -3, 20);
  }
}
void unary(Case &c) {
  T x0 = value(c); volatile T in = x0; T x = in; NOTE(c, "x = " << show(x) << " (bits " << (ull)to_bits(x) << ")");
#define SAME(NAME, CALL, REF) do { auto got_ = CALL; auto ref_ = REF; CK(std::strncmp(NAME, "relaxed", 7) == 0 ? eq((ld)got_, (ld)ref_) : eqz((ld)got_, (ld)ref_), NAME << "(" << show(x) << ") is " << show(got_) << ", expected " << show(ref_)); } while (0)
  SAME("trunc", cx::trunc(x), std::trunc(x)); SAME("floor", cx::floor(x), std::floor(x)); SAME("ceil", cx::ceil(x), std::ceil(x)); SAME("round", cx::round(x), std::round(x)); SAME("round_even", cx::round_even(x), ref_round_even(x));
  SAME("fract", cx::fract(x), ref_fract(x)); SAME("abs", cx::abs(x), std::fabs(x)); SAME("fabs", cx::fabs(x), std::fabs(x)); SAME("sqrt", cx::sqrt(x), std::sqrt(x));
  SAME("isnan", (int)cx::isnan(x), (int)std::isnan(x)); SAME("isinf", (int)cx::isinf(x), (int)std::isinf(x)); SAME("isnormal", (int)cx::isnormal(x), (int)std::isnormal(x)); SAME("isfinite", (int)cx::isfinite(x), (int)std::isfinite(x));
  SAME("signbit", (int)cx::signbit(x), (int)std::signbit(x)); SAME("fpclassify", cx::fpclassify(x), std::fpclassify(x)); SAME("is_negative_zero", (int)cx::is_negative_zero(x), (int)(x == 0 && std::signbit(x)));
  if (x == x) { T f = cx::fract(x); CK(!std::isfinite(x) || (f >= 0 && f <= 1), "fract(" << show(x) << ") is " << show(f)); CK(!std::signbit(cx::abs(x)), "abs(" << show(x) << ") is negative"); }
  T y = value(c); NOTE(c, "y = " << show(y)); T cs = cx::copysign(x, y); CK(to_bits(cs) == ((to_bits(x) & ~(B(1) << (MB + EB))) | (to_bits(y) & (B(1) << (MB + EB)))), "copysign(" << show(x) << ", " << show(y) << ") is " << show(cs));
  SAME("fmod by y", cx::fmod(x, y), std::fmod(x, y));
  if (x > 0 && std::isfinite(x)) { ld w = 1 / std::sqrt((ld)x); CK(ulps(cx::rsqrt(x), w) <= 1, "rsqrt(" << show(x) << ") is " << show(cx::rsqrt(x))); if (x >= L::min()) CK(ulps(cx::fast_rsqrt(x), w) <= 3, "fast_rsqrt(" << show(x) << ") is " << show(cx::fast_rsqrt(x))); }
  SAME("negative_zero", (int)cx::is_negative_zero(cx::negative_zero<T>), 1); T lf = cx::limits::largest_fractional_value<T>; CK(lf != std::trunc(lf) && std::nextafter(lf, L::infinity()) == std::trunc(std::nextafter(lf, L::infinity())), "largest_fractional_value is " << show(lf));
  c.nontrivial(x == x);
}
// the relaxed functions on ordinary values: finite and small enough for an integer of the same size
void relaxed_fns(Case &c) {
  T x0 = c.chance(1, 3) ? T(c.range(-4000, 4000)) / T(2) : c.coin() ? with_exp(c, -10, sizeof(T) == 4 ? 30 : 61) : with_exp(c, -3, 10); volatile T in = x0; T x = in; NOTE(c, "x = " << show(x));
  SAME("relaxed trunc", rx::trunc(x), std::trunc(x)); SAME("relaxed floor", rx::floor(x), std::floor(x)); SAME("relaxed ceil", rx::ceil(x), std::ceil(x)); SAME("relaxed fract", rx::fract(x), ref_fract(x)); SAME("relaxed abs", rx::abs(x), std::fabs(x)); SAME("relaxed fabs", rx::fabs(x), std::fabs(x));
  SAME("relaxed round", rx::round(x), std::round(x)); SAME("relaxed round_even", rx::round_even(x), ref_round_even(x));
  int a = c.range(-100000, 100000), b = c.range(1, 300) * (c.coin() ? 1 : -1); T r = rx::fmod(T(a), T(b)); CK(r == T(a % b), "relaxed fmod(" << a << ", " << b << ") is " << show(r));
  if (x > 0) { ld s = std::sqrt((ld)x); CK(ulps(rx::sqrt(x), s) <= 1, "relaxed sqrt(" << show(x) << ") is " << show(rx::sqrt(x))); CK(ulps(rx::rsqrt(x), 1 / s) <= 1, "relaxed rsqrt(" << show(x) << ") is " << show(rx::rsqrt(x))); CK(ulps(rx::fast_rsqrt(x), 1 / s) <= 4, "relaxed fast_rsqrt(" << show(x) << ") is " << show(rx::fast_rsqrt(x))); }
  c.nontrivial(x != std::trunc(x));
}
PBT_PROP(PART ? "C21.strict.double" : "C21.strict.float", 3, unary); PBT_PROP(PART ? "C21.relaxed.double" : "C21.relaxed.float", 1, relaxed_fns);
#elif PART < 4
// constant evaluation: NROW arguments drawn from VSEED, every function evaluated by the compiler, compared with the standard library at run time
using T = std::conditional_t<PART == 2, float, double>; using L = std::numeric_limits<T>;
struct G { ull s; constexpr ull next() { s += 0x9e3779b97f4a7c15ull; ull z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } constexpr ull below(ull n) { return next() % n; } };
constexpr int MB = L::digits - 1, BIAS = L::max_exponent - 1, EB = PART == 2 ? 8 : 11;
constexpr T mk(ull sign, int e, ull frac) { return std::bit_cast<T>((bits_t<T>)((sign << (MB + EB)) | ((ull)(e + BIAS) << MB) | frac)); }
constexpr T gen(G &g) {
  auto ex = [&](int lo, int hi) { ull s = g.below(2); int e = lo + (int)g.below(hi - lo + 1); return mk(s, e, g.below(3) == 0 ? g.below(8) << (MB - 3) : g.below(1ull << MB)); };
  switch (g.below(9)) { case 0: return T((int)g.below(41) - 20) / T(2); case 1: return T((int)g.below(4000003) - 2000001) / T(2); case 2: return ex(-3, 5); case 3: return ex(MB - 3, MB + 3); case 4: return ex(-BIAS + 1, BIAS); case 5: { T a[] = {T(0), L::infinity(), L::max(), L::min(), L::denorm_min(), L::quiet_NaN(), L::epsilon(), cx::limits::largest_fractional_value<T>}; T x = a[g.below(8)]; return g.below(2) ? -x : x; }
    case 6: return ex(0, MB); case 7: { bits_t<T> b = std::bit_cast<bits_t<T>>(T((int)g.below(41) - 20) / T(2)); return std::bit_cast<T>((bits_t<T>)(b ^ 1)); } default: return ex(-40, 40); }
}
struct Row { T x, y, r[12]; int k[7]; };
constexpr Row row(ull i) {
  G g{(ull)VSEED * 1000003 + i * 7919 + PART}; T x = gen(g), y = gen(g); if (g.below(3) == 0 && x == x) { T q = T((int)g.below(2000) + 1); T z = x / q; y = g.below(2) ? z : -z; }   // often a divisor near a fraction of x
  Row r{x, y, {cx::trunc(x), cx::floor(x), cx::ceil(x), cx::round(x), cx::round_even(x), cx::fract(x), cx::abs(x), cx::fabs(x), cx::sqrt(x), cx::rsqrt(x), cx::fmod(x, y), cx::copysign(x, y)}, {cx::isnan(x), cx::isinf(x), cx::isnormal(x), cx::isfinite(x), cx::signbit(x), cx::fpclassify(x), cx::is_negative_zero(x)}}; return r;
}
template <size_t B> constexpr auto batch = [] { std::array<Row, 10> a{}; for (size_t i = 0; i < 10; ++i) a[i] = row(B * 10 + i); return a; }();
template <size_t... B> auto *tables(std::index_sequence<B...>) { static const std::array<Row, 10> *t[] = {&batch<B>...}; return t; }
void table(Case &c) {
  auto t = tables(std::make_index_sequence<NROW / 10>{}); const Row &r = (*t[c.below(NROW / 10)])[c.below(10)]; volatile T vx = r.x, vy = r.y; T x = vx, y = vy;
  static const char *n[] = {"trunc", "floor", "ceil", "round", "round_even", "fract", "abs", "fabs", "sqrt", "rsqrt", "fmod", "copysign"}; NOTE(c, "x = " << show(x) << ", y = " << show(y));
  T want[12] = {std::trunc(x), std::floor(x), std::ceil(x), std::round(x), ref_round_even(x), ref_fract(x), std::fabs(x), std::fabs(x), std::sqrt(x), cx::rsqrt(x), std::fmod(x, y), std::copysign(x, y)};
  for (int i = 0; i < 12; ++i) { bool ok = i == 9 ? eq(r.r[i], want[i]) : eqz(r.r[i], want[i]); if (!ok && (i == 8 || i == 9)) ok = std::nextafter(r.r[i], want[i]) == want[i] || (x == 0 && std::isinf(want[i])); CK(ok, "in constant evaluation " << n[i] << "(" << show(x) << (i >= 10 ? ", " + show(y) : "") << ") is " << show(r.r[i]) << ", the standard library gives " << show(want[i])); }
  int k[7] = {std::isnan(x), std::isinf(x), std::isnormal(x), std::isfinite(x), std::signbit(x), std::fpclassify(x), x == 0 && std::signbit(x)}; static const char *kn[] = {"isnan", "isinf", "isnormal", "isfinite", "signbit", "fpclassify", "is_negative_zero"};
  for (int i = 0; i < 7; ++i) CK(r.k[i] == k[i], "in constant evaluation " << kn[i] << "(" << show(x) << ") is " << r.k[i]); c.nontrivial(x == x);
}
PBT_PROP(PART == 2 ? "C21.constant.float" : "C21.constant.double", 1, table);
#else
template <class I> void ints(Case &c) {
  using IL = std::numeric_limits<I>; I x; switch (c.below(4)) { case 0: x = (I)c.range(IL::is_signed ? -9 : 0, 9); break; case 1: x = IL::max() - (I)c.below(3); break; case 2: x = IL::min() + (I)c.below(3); break; default: x = (I)c.below(0); } volatile I in = x; x = in;
  bool lowest = IL::is_signed && x == IL::min(); NOTE(c, "x = " << show(x));
  if (!lowest) { I a = 0; double f = 0; bool st = pbt::aborts([&] { a = cx::abs(x); f = cx::fabs(x); }); I w = IL::is_signed && x < I(0) ? I(0) - x : x; CK(!st, "abs or fabs of " << show(x) << " stopped the program"); CK(a == w, "abs(" << show(x) << ") is " << show(a)); CK(f == (double)w, "fabs(" << show(x) << ") is " << show(f)); CK(rx::abs(x) == w && rx::fabs(x) == (double)w, "relaxed abs(" << show(x) << ") is " << show(rx::abs(x))); }
  CK(cx::trunc(x) == (double)x && cx::floor(x) == (double)x && cx::ceil(x) == (double)x && cx::round(x) == (double)x && cx::round_even(x) == (double)x && cx::fract(x) == 0, "rounding the integer " << show(x) << " changes it"); c.nontrivial(x != I(0));
}
void int_fns(Case &c) { switch (c.below(6)) { case 0: ints<int>(c); break; case 1: ints<unsigned>(c); break; case 2: ints<ll>(c); break; case 3: ints<ull>(c); break; case 4: ints<long>(c); break; default: ints<unsigned long>(c); } }
using dd = cx::dd_real::dd_real; using q = __float128;
double dbl(Case &c, int e) { double m = c.chance(1, 3) ? 1 + (double)c.below(16) / 16 : 1 + (double)c.below(1ull << 52) / 4503599627370496.0; return std::ldexp(c.coin() ? m : -m, c.range(-e, e)); }
dd gen_dd(Case &c, int e) { double h = dbl(c, e); int k; std::frexp(h, &k); double l = c.chance(1, 5) ? 0 : std::ldexp((double)((ll)c.below((1ull << 53)) - (1ll << 52)), k - 106); double s = h + l; return dd(s, l - (s - h)); }
q val(const dd &a) { return (q)a[0] + (q)a[1]; }
std::string sd(const dd &a) { return show(a[0]) + " + " + show(a[1]); }
void dd_ops(Case &c) {
  dd a = gen_dd(c, 60), b = gen_dd(c, 60); if (c.chance(1, 4)) { b = dd(-a[0] * (1 + std::ldexp((double)c.range(-3, 3), -c.range(1, 52))), 0); if (b[0] == 0) b = dd(1, 0); } double d = dbl(c, 60); NOTE(c, "a = " << sd(a) << "\nb = " << sd(b) << "\nd = " << show(d));
  auto chk = [&](const char *n, const dd &r, q w, double bound) { q e = val(r) - w; if (e < 0) e = -e; if (w < 0) w = -w; CK(e <= w * (q)bound, n << " of " << sd(a) << ", " << sd(b) << ", " << show(d) << " is " << sd(r) << ", off by " << show((double)(w == 0 ? e : e / w)) << " relative"); CK(r[0] + r[1] == r[0], n << ": the parts " << sd(r) << " overlap"); };
  const double E = std::ldexp(1.0, -98); q A = val(a), Bq = val(b), D = d;
  chk("dd + dd", a + b, A + Bq, E); chk("dd - dd", a - b, A - Bq, E); chk("dd + double", a + d, A + D, E); chk("double - dd", d - a, D - A, E); chk("dd * dd", a * b, A * Bq, E); chk("dd * double", a * d, A * D, E); chk("double * dd", d * a, A * D, E); chk("dd / dd", a / b, A / Bq, E); chk("double / dd", d / a, D / A, E);
  dd t = a; t -= b; chk("dd -= dd", t, A - Bq, E); t = a; t *= b; chk("dd *= dd", t, A * Bq, E); CK((double)a == a[0] && (float)a == (float)a[0] && dd(d)[0] == d && dd(d)[1] == 0, "conversion of a double-double"); c.nontrivial();
}
PBT_PROP("C21.integers", 1, int_fns); PBT_PROP("C21.double_double", 1, dd_ops);
#endif
}
