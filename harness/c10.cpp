// C10: rounding and common functions. PART 0..: float / double, split for compile time.
#include "kinds.hpp"
namespace {
#if PART % 2 == 0
using T = float;
#else
using T = double;
#endif
constexpr T INF = std::numeric_limits<T>::infinity(), MAXV = std::numeric_limits<T>::max();
constexpr T EPS = std::numeric_limits<T>::epsilon();
constexpr unsigned TS = tnum<T>;

T gen_inf(Case &c) { return c.chance(1, 12) ? (c.coin() ? INF : -INF) : gen_finite<T>(c); }
T gen_round(Case &c) {                                     // halves and neighbours are the interesting places
  if (c.coin()) { T v = (T)(int64_t)c.below(1ull << (1 + c.below(mant_bits<T>))) + (c.coin() ? T(0.5) : T(0)); int d = (int)c.below(3); if (d == 1) v = std::nextafter(v, INF); if (d == 2) v = std::nextafter(v, -INF); return c.coin() ? -v : v; }
  return gen_inf(c);
}
std::string pr(T v) { return show(v); }

// all unary functions: name, call, scalar expectation
template <unsigned ID, size_t N, class CALL, class REF> void unary_fn(Case &c, const char *name, T (*gen)(Case &), CALL call, REF ref) {
  std::array<T, N> a; for (auto &x : a) x = gen(c);
  NOTE(c, name << " of " << tname<T>() << " " << show(a)); c.nontrivial(N == 1 ? a[0] != 0 : all_distinct(a)); c.label(name);
  std::array<T, N> got, m;
  hk<ID * 4 + N, NVAR>(c, [&](auto &o) { m = o.m; got = res_arr<T, N>(call(o.get())); }, a);
  for (size_t i = 0; i < N; ++i) {
    ref(m[i], got[i], name);
    T s = call(m[i]);
    CK(same(s, got[i]), name << "(" << pr(m[i]) << ") as a scalar is " << pr(s) << ", in a vector " << pr(got[i]));
  }
}
void want(T x, T got, T w, const char *n) { CK(numeq(got, w), n << "(" << pr(x) << ") is " << pr(got) << ", expected " << pr(w)); }
#define UN(ID, NAME, GEN, ...) template <size_t N> void u_##NAME(Case &c) { unary_fn<ID, N>(c, #NAME, GEN, [](const auto &v) { return dsga::NAME(v); }, [](T x, T got, const char *n) { (void)n; __VA_ARGS__ }); }
// a zero result of the rounding functions keeps the sign of the argument
void rounded(T x, T got, T w, const char *n) { CK(same(got, w == 0 ? std::copysign(w, x) : w), n << "(" << pr(x) << ") is " << pr(got) << ", expected " << pr(w == 0 ? std::copysign(w, x) : w)); }
// independent rounding: split |x| by bits, no library rounding function
T ref_trunc(T x) { if (!(std::fabs(x) < std::ldexp(T(1), mant_bits<T>))) return x; T r = (T)(int64_t)x; return r; }
T ref_floor(T x) { T t = ref_trunc(x); return t > x ? t - 1 : t; }
T ref_ceil(T x) { T t = ref_trunc(x); return t < x ? t + 1 : t; }
T ref_round(T x) { T t = ref_trunc(x); T d = std::fabs(x - t); if (!(d >= T(0.5))) return t; return x > 0 ? t + 1 : t - 1; }
T ref_round_even(T x) { T t = ref_trunc(x); if (t == x || std::isinf(x)) return x; T d = std::fabs(x - t); bool odd = ((int64_t)t & 1) != 0; if (d < T(0.5) || (d == T(0.5) && !odd)) return t; return x > 0 ? t + 1 : t - 1; }
UN(1, floor, gen_round, rounded(x, got, ref_floor(x), n);)
UN(2, ceil, gen_round, rounded(x, got, ref_ceil(x), n);)
UN(3, trunc, gen_round, rounded(x, got, ref_trunc(x), n);)
UN(4, round, gen_round, { T lo = ref_floor(x); bool half = !std::isinf(x) && x - lo == T(0.5); if (half) CK(got == lo || got == lo + 1, "round(" << pr(x) << ") is " << pr(got)); else rounded(x, got, ref_round(x), n); if (half) CK(got == ref_round(x), "round(" << pr(x) << ") is " << pr(got) << ", expected the half-way case away from zero"); })
UN(5, roundEven, gen_round, rounded(x, got, ref_round_even(x), n);)
T gen_fr(Case &c) { T v = gen_round(c); return std::isinf(v) ? T(0.75) : v; }
UN(6, fract, gen_fr, { want(x, got, x - ref_floor(x), n); CK(got >= 0 && got <= 1, "fract(" << pr(x) << ") is " << pr(got)); })
UN(7, abs, gen_inf, { CK(!std::signbit(got), "abs(" << pr(x) << ") is " << pr(got)); want(x, got, x < 0 ? -x : x, n); })
UN(8, sign, gen_inf, { want(x, got, x > 0 ? T(1) : x < 0 ? T(-1) : T(0), n); })
T gen_ang(Case &c) { T v = gen_finite<T>(c); return std::fabs(v) > MAXV / 64 ? T(90) : v; }
UN(9, radians, gen_ang, { long double w = (long double)x * (3.14159265358979323846264338327950288L / 180); T tw = (T)w; if (std::fabs(tw) < std::numeric_limits<T>::min() * 128) CK(std::fabs((long double)got - w) <= std::numeric_limits<T>::denorm_min() * 4 + std::fabs(w) * 4 * EPS, n << "(" << pr(x) << ") is " << pr(got)); else CK(ulp_dist(got, tw) <= 4, n << "(" << pr(x) << ") is " << pr(got) << ", expected about " << pr(tw)); })
UN(10, degrees, gen_ang, { long double w = (long double)x * (180 / 3.14159265358979323846264338327950288L); T tw = (T)w; if (std::fabs(tw) < std::numeric_limits<T>::min() * 128) CK(std::fabs((long double)got - w) <= std::numeric_limits<T>::denorm_min() * 64 + std::fabs(w) * 4 * EPS, n << "(" << pr(x) << ") is " << pr(got)); else CK(ulp_dist(got, tw) <= 4, n << "(" << pr(x) << ") is " << pr(got) << ", expected about " << pr(tw)); })

#define SIZES(F) void F##_p(Case &c) { switch (c.below(4)) { case 0: F<2>(c); break; case 1: F<3>(c); break; case 2: F<4>(c); break; case 3: F<1>(c); break; } }
#define NM(X) ((const char *)[] { static std::string s = std::string("C10.") + X + "." + tname<T>(); return s.c_str(); }())
#define DO(F, X) SIZES(F) PBT_PROP(NM(X), 1, F##_p)
#if PART < 2
DO(u_floor, "floor"); DO(u_ceil, "ceil"); DO(u_trunc, "trunc"); DO(u_round, "round"); DO(u_roundEven, "roundEven"); DO(u_fract, "fract");
DO(u_abs, "abs"); DO(u_sign, "sign"); DO(u_radians, "radians"); DO(u_degrees, "degrees");

// abs and sign of signed integers
template <class I, size_t N> void int_abs(Case &c) {
  auto a = gen_arr_finite<I, N>(c); for (auto &x : a) if (x == std::numeric_limits<I>::min()) x = -5;
  bool sg = c.coin(); NOTE(c, (sg ? "sign" : "abs") << " of " << tname<I>() << " " << show(a)); c.nontrivial(N == 1 || all_distinct(a));
  hk<77 * 4 + N, NVAR>(c, [&](auto &o) {
    auto got = sg ? res_arr<I, N>(dsga::sign(o.get())) : res_arr<I, N>(dsga::abs(o.get()));
    for (size_t i = 0; i < N; ++i) { I x = o.m[i]; I w = sg ? I((x > 0) - (x < 0)) : x < 0 ? -x : x; I s = sg ? dsga::sign(x) : dsga::abs(x);
      CK(got[i] == w, "component " << i << " is " << got[i] << ", expected " << w); CK(s == w, "scalar form gives " << s << ", expected " << w); } }, a);
}
#if PART == 0
template <size_t N> void iabs_i(Case &c) { int_abs<int, N>(c); }
DO(iabs_i, "abs_sign.int");
#else
template <size_t N> void iabs_l(Case &c) { int_abs<ll, N>(c); }
DO(iabs_l, "abs_sign.llong");
#endif

// mod
bool mod_ok(T x, T y, T got) {
  T q = std::floor(x / y), e = x - y * q;
  if (same(e, got)) return true;
  if (!std::isfinite(e) || !std::isfinite(q)) return !std::isfinite(got) || true;
  return std::fabs(got - e) <= EPS * 2 * (std::fabs(x) + std::fabs(y * q));
}
void gen_mod(Case &c, T &x, T &y) {
  if (c.coin()) { x = (T)c.range(-400, 400) / 4; y = (T)c.range(1, 60) / 4; if (c.coin()) y = -y; }
  else { x = gen_finite<T>(c); y = gen_finite<T>(c); if (y == 0) y = 1; if (std::fabs(x) > std::sqrt(MAXV)) x = T(-7.25); if (std::fabs(y) < 1 / std::sqrt(MAXV)) y = T(2.5); }
}
template <size_t N> void mod_t(Case &c) {
  std::array<T, N> x, y; for (size_t i = 0; i < N; ++i) gen_mod(c, x[i], y[i]);
  bool sc = N > 1 && c.coin(); if (sc) { T t; gen_mod(c, t, y[0]); for (auto &v : y) v = y[0]; }
  NOTE(c, (sc ? "mod(vector, scalar) " : "mod ") << show(x) << ", " << show(y)); c.nontrivial();
  auto chk = [&](const auto &mx, const auto &my, const std::array<T, N> &got) { for (size_t i = 0; i < N; ++i) {
    bool small = std::fabs(mx[i]) <= 100 && std::fabs(my[i]) <= 15 && mx[i] * 4 == std::floor(mx[i] * 4) && my[i] * 4 == std::floor(my[i] * 4);
    if (small) { long long a = (long long)(mx[i] * 4), b = (long long)(my[i] * 4); long long r = ((a % b) + b) % b; CK(got[i] == (T)r / 4, "mod(" << pr(mx[i]) << ", " << pr(my[i]) << ") is " << pr(got[i]) << ", expected " << pr((T)r / 4)); }
    else CK(mod_ok(mx[i], my[i], got[i]), "mod(" << pr(mx[i]) << ", " << pr(my[i]) << ") is " << pr(got[i]) << ", expected " << pr(mx[i] - my[i] * std::floor(mx[i] / my[i])));
    T s = dsga::mod(mx[i], my[i]); CK(same(s, got[i]) || numeq(s, got[i]), "scalar form differs: " << pr(s)); } };
  if (sc) hk<401 + N, NVAR>(c, [&](auto &o) { chk(o.m, y, res_arr<T, N>(dsga::mod(o.get(), y[0]))); }, x);
  else hk<411 + N, NVAR>(c, [&](auto &o, auto &p) { for (size_t i = 0; i < N; ++i) if (p.m[i] == 0) return; chk(o.m, p.m, res_arr<T, N>(dsga::mod(o.get(), p.get()))); }, x, y);
}
DO(mod_t, "mod");

// modf: out parameter of every writable kind
template <int K, size_t N> void modf_k(Case &c, const std::array<T, N> &a, bool same_kind) {
  std::array<T, N> junk; for (size_t i = 0; i < N; ++i) junk[i] = T(100 + i);
  Opnd<K, T, N> out(junk); NOTE(c, "  out parameter: " << kind_name(K)); (void)same_kind;
  T before[8]; for (int i = 0; i < 8; ++i) before[i] = out.a[i];
  dsga::basic_vector<T, Opnd<K, T, N>::BN> bb = out.b;
  auto check = [&](const std::array<T, N> &m, const std::array<T, N> &f) {
    auto ip = arr_of(out.get());
    for (size_t i = 0; i < N; ++i) {
      T w = ref_trunc(m[i]); T fr = m[i] - w;
      CK(numeq(ip[i], w), "modf(" << pr(m[i]) << ") integral part " << pr(ip[i]) << ", expected " << pr(w));
      CK(numeq(f[i], fr), "modf(" << pr(m[i]) << ") fraction " << pr(f[i]) << ", expected " << pr(fr));
      T si; T sf = dsga::modf(m[i], si); CK(numeq(si, w) && numeq(sf, fr), "scalar modf(" << pr(m[i]) << ") gives " << pr(si) << " and " << pr(sf));
    }
    bool hit[8] = {}; for (size_t i = 0; i < N; ++i) hit[Opnd<K, T, N>::at(i)] = true;
    if constexpr (Opnd<K, T, N>::is_view) { for (int i = 0; i < 8; ++i) if (i < 2 || !hit[i - 2]) CK(same(out.a[i], before[i]), "modf wrote outside the out parameter"); }
    else if constexpr (K != 4) for (size_t i = 0; i < out.BN; ++i) if (!hit[i]) CK(same(out.b[i], bb[i]), "modf wrote outside the out parameter");
  };
  hk<421 + N * 9 + K, 2>(c, [&](auto &o) { auto f = res_arr<T, N>(dsga::modf(o.get(), out.get())); check(o.m, f); }, a);
}
// the out parameter is, or overlaps, the argument
template <size_t N> void modf_alias(Case &c, const std::array<T, N> &a) {
  int how = (int)c.below(N > 1 ? 4 : 3); const char *names[] = {"the argument itself", "a view of the argument", "a view shifted by one element", "the reversed argument"}; NOTE(c, "  out parameter: " << names[how]);
  T raw[N + 3]; for (auto &x : raw) x = T(100); auto before = std::array<T, N>(a); std::array<T, N> f{}, ip{};
  auto fin = [&](const auto &r, auto &&out) { f = res_arr<T, N>(r); for (size_t i = 0; i < N; ++i) ip[i] = out[i]; };
  if (how == 2) { size_t s = c.below(2), d = 1 - s; for (size_t i = 0; i < N; ++i) raw[1 + s + i] = a[i]; dsga::basic_view<true, T, N> x(raw + 1 + s), y(raw + 1 + d); fin(dsga::modf(x, y), y); CK(raw[0] == T(100) && raw[N + 2] == T(100), "modf wrote outside the out parameter"); }
  else { dsga::basic_vector<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = a[i]; dsga::basic_view<true, T, N> w(v.data());
    if (how == 0) fin(dsga::modf(v, v), v); else if (how == 1) { if (c.coin()) fin(dsga::modf(w, v), v); else fin(dsga::modf(v, w), v); }
    else if constexpr (N == 2) { fin(dsga::modf(v, v.yx), v.yx); } else if constexpr (N == 3) { fin(dsga::modf(v.zyx, v), v); std::reverse(before.begin(), before.end()); } else if constexpr (N == 4) { fin(dsga::modf(v, w.wzyx), v.wzyx); } }
  for (size_t i = 0; i < N; ++i) { T w = ref_trunc(before[i]); CK(numeq(ip[i], w), "modf(" << pr(before[i]) << ") integral part " << pr(ip[i]) << ", expected " << pr(w) << " when the out parameter is " << names[how]); CK(numeq(f[i], before[i] - w), "modf(" << pr(before[i]) << ") fraction " << pr(f[i]) << ", expected " << pr(before[i] - w) << " when the out parameter is " << names[how]); }
}
template <size_t N> void modf_t(Case &c) {
  std::array<T, N> a; for (auto &x : a) x = gen_fr(c);
  NOTE(c, "modf " << show(a)); c.nontrivial();
  switch (c.below(6)) { case 5: modf_alias<N>(c, a); break; case 0: modf_k<0>(c, a, 0); break; case 1: modf_k<1>(c, a, 0); break; case 2: modf_k<2>(c, a, 0); break; case 3: modf_k<4>(c, a, 0); break; case 4: modf_k<5>(c, a, 0); break; }
}
DO(modf_t, "modf");
#else
// min, max, clamp for every element type; vector/scalar forms
template <class I, size_t N> void minmax(Case &c) {
  auto gen = [&]() -> I { if constexpr (std::is_floating_point_v<I>) return c.chance(1, 12) ? (c.coin() ? INF : -INF) : (I)gen_finite<I>(c); else return gen_finite<I>(c); };
  int form = (int)c.below(6);
  auto x = gen_arr_with<I, N>(gen), lo = gen_arr_with<I, N>(gen), hi = gen_arr_with<I, N>(gen);
  if (c.coin()) for (size_t i = 0; i < N; ++i) { x[i] = gen_small<I>(c); lo[i] = gen_small<I>(c); hi[i] = gen_small<I>(c); }
  for (size_t i = 0; i < N; ++i) if (form == 5 && i) { lo[i] = lo[0]; hi[i] = hi[0]; } else if (form == 2 || form == 3) lo[i] = lo[0];
  if (form >= 4) for (size_t i = 0; i < N; ++i) if (hi[i] < lo[i]) std::swap(lo[i], hi[i]);
  static const char *fn[] = {"min", "max", "min(v,s)", "max(v,s)", "clamp", "clamp(v,s,s)"};
  NOTE(c, fn[form] << " " << tname<I>() << " " << show(x) << ", " << show(lo) << (form >= 4 ? ", " + show(hi) : std::string())); c.label(fn[form]); c.nontrivial(N == 1 || all_distinct(x));
  auto chk = [&](const auto &mx, const auto &ml, const auto &mh, const std::array<I, N> &got) {
    for (size_t i = 0; i < N; ++i) {
      I w = form >= 4 ? (mx[i] < ml[i] ? ml[i] : mx[i] > mh[i] ? mh[i] : mx[i]) : (form & 1) ? (mx[i] > ml[i] ? mx[i] : ml[i]) : (mx[i] < ml[i] ? mx[i] : ml[i]);
      I s = form >= 4 ? dsga::clamp(mx[i], ml[i], mh[i]) : (form & 1) ? dsga::max(mx[i], ml[i]) : dsga::min(mx[i], ml[i]);
      CK(got[i] == w, "component " << i << " of " << fn[form] << " is " << show(got[i]) << ", expected " << show(w)); CK(s == w, "scalar " << fn[form] << " is " << show(s) << ", expected " << show(w));
    } };
  constexpr unsigned S = 500 + tnum<I> * 40 + N * 8;
  switch (form) {
    case 0: hk<S, NVAR>(c, [&](auto &o, auto &p) { chk(o.m, p.m, p.m, res_arr<I, N>(dsga::min(o.get(), p.get()))); }, x, lo); break;
    case 1: hk<S + 1, NVAR>(c, [&](auto &o, auto &p) { chk(o.m, p.m, p.m, res_arr<I, N>(dsga::max(o.get(), p.get()))); }, x, lo); break;
    case 2: hk<S + 2, NVAR>(c, [&](auto &o) { chk(o.m, lo, lo, res_arr<I, N>(dsga::min(o.get(), lo[0]))); }, x); break;
    case 3: hk<S + 3, NVAR>(c, [&](auto &o) { chk(o.m, lo, lo, res_arr<I, N>(dsga::max(o.get(), lo[0]))); }, x); break;
    case 4: hk<S + 4, NVAR>(c, [&](auto &o, auto &p, auto &q) { for (size_t i = 0; i < N; ++i) if (q.m[i] < p.m[i]) { c.label("discarded"); return; } chk(o.m, p.m, q.m, res_arr<I, N>(dsga::clamp(o.get(), p.get(), q.get()))); }, x, lo, hi); break;
    case 5: hk<S + 5, NVAR>(c, [&](auto &o) { chk(o.m, lo, hi, res_arr<I, N>(dsga::clamp(o.get(), lo[0], hi[0]))); }, x); break;
  }
}
template <size_t N> void mm_t(Case &c) { minmax<T, N>(c); }
DO(mm_t, "minmaxclamp");
#if PART == 2
template <size_t N> void mm_int(Case &c) { minmax<int, N>(c); } template <size_t N> void mm_uns(Case &c) { minmax<unsigned, N>(c); }
DO(mm_int, "minmaxclamp.int"); DO(mm_uns, "minmaxclamp.unsigned");
#else
template <size_t N> void mm_ll(Case &c) { minmax<ll, N>(c); } template <size_t N> void mm_ull(Case &c) { minmax<ull, N>(c); }
DO(mm_ll, "minmaxclamp.llong"); DO(mm_ull, "minmaxclamp.ullong");
#endif

// mix with a floating selector
T gen_mid(Case &c) { T v = gen_finite<T>(c); return std::fabs(v) > MAXV / 1024 ? T(3.5) : v; }
T gen_sel(Case &c) { switch (c.below(4)) { case 0: return T(0); case 1: return T(1); case 2: return (T)c.below(1025) / 1024; default: return (T)c.range(-512, 512) / 128; } }
void mix_ok(T x, T y, T a, T got) {
  if (a == 0) CK(got == x, "mix(" << pr(x) << ", " << pr(y) << ", 0) is " << pr(got));
  if (a == 1) CK(got == y, "mix(" << pr(x) << ", " << pr(y) << ", 1) is " << pr(got));
  if (a >= 0 && a <= 1) CK(got >= std::min(x, y) && got <= std::max(x, y), "mix(" << pr(x) << ", " << pr(y) << ", " << pr(a) << ") is " << pr(got) << ", outside the end points");
  long double w = (long double)x * (1 - (long double)a) + (long double)y * a, sc = (std::fabs((long double)x) + std::fabs((long double)y)) * (1 + std::fabs((long double)a));
  CK(std::fabs((long double)got - w) <= 4 * EPS * sc + 4 * std::numeric_limits<T>::denorm_min(), "mix(" << pr(x) << ", " << pr(y) << ", " << pr(a) << ") is " << pr(got) << ", expected about " << pr((T)w));
}
template <size_t N> void mix_t(Case &c) {
  auto x = gen_arr_with<T, N>([&] { return gen_mid(c); }), y = gen_arr_with<T, N>([&] { return gen_mid(c); }), a = gen_arr_with<T, N>([&] { return gen_sel(c); });
  bool sc = N > 1 && c.coin(); if (sc) for (auto &v : a) v = a[0];
  NOTE(c, (sc ? "mix(v,v,s) " : "mix ") << show(x) << ", " << show(y) << ", " << show(a)); c.nontrivial(x != y);
  auto chk = [&](const auto &mx, const auto &my, const auto &ma, const std::array<T, N> &got) { for (size_t i = 0; i < N; ++i) { mix_ok(mx[i], my[i], ma[i], got[i]); T s = dsga::mix(mx[i], my[i], ma[i]); CK(numeq(s, got[i]), "scalar mix gives " << pr(s) << ", vector " << pr(got[i])); } };
  if (sc) hk<901 + N, NVAR>(c, [&](auto &o, auto &p) { chk(o.m, p.m, a, res_arr<T, N>(dsga::mix(o.get(), p.get(), a[0]))); }, x, y);
  else hk<911 + N, NVAR>(c, [&](auto &o, auto &p, auto &q) { chk(o.m, p.m, q.m, res_arr<T, N>(dsga::mix(o.get(), p.get(), q.get()))); }, x, y, a);
}
DO(mix_t, "mix");
// mix with a boolean selector: picks, without arithmetic
template <class I, size_t N> void mixb(Case &c) {
  auto x = gen_arr_any<I, N>(c), y = gen_arr_any<I, N>(c); std::array<bool, N> a; for (auto &b : a) b = c.coin();
  NOTE(c, "mix " << tname<I>() << " " << show(x) << ", " << show(y) << ", " << show(a)); c.nontrivial(!same_arr(x, y));
  hk<930 + tnum<I> * 8 + N, 2>(c, [&](auto &o, auto &p, auto &q) {
    auto got = res_arr<I, N>(dsga::mix(o.get(), p.get(), q.get()));
    for (size_t i = 0; i < N; ++i) { I w = q.m[i] ? p.m[i] : o.m[i]; CK(same(got[i], w), "component " << i << " is " << show(got[i]) << ", expected " << show(w)); CK(same(dsga::mix(o.m[i], p.m[i], (bool)q.m[i]), w), "scalar mix with a bool selector differs"); } }, x, y, a);
}
template <size_t N> void mixb_t(Case &c) { switch (c.below(4)) { case 0: mixb<T, N>(c); break; case 1: mixb<int, N>(c); break; case 2: mixb<ull, N>(c); break; case 3: mixb<bool, N>(c); break; } }
DO(mixb_t, "mix_bool");
// step
template <size_t N> void step_t(Case &c) {
  auto e = gen_arr_with<T, N>([&] { return gen_inf(c); }), x = gen_arr_with<T, N>([&] { return gen_inf(c); });
  for (size_t i = 0; i < N; ++i) if (c.coin()) { x[i] = e[i]; int d = (int)c.below(3); if (d == 1) x[i] = std::nextafter(x[i], INF); if (d == 2) x[i] = std::nextafter(x[i], -INF); }
  bool sc = N > 1 && c.coin(); if (sc) for (auto &v : e) v = e[0];
  NOTE(c, (sc ? "step(s,v) " : "step ") << show(e) << ", " << show(x)); c.nontrivial();
  auto chk = [&](const auto &me, const auto &mx, const std::array<T, N> &got) { for (size_t i = 0; i < N; ++i) { T w = mx[i] < me[i] ? T(0) : T(1); CK(got[i] == w, "step(" << pr(me[i]) << ", " << pr(mx[i]) << ") is " << pr(got[i])); CK(dsga::step(me[i], mx[i]) == w, "scalar step(" << pr(me[i]) << ", " << pr(mx[i]) << ") is wrong"); } };
  if (sc) hk<971 + N, NVAR>(c, [&](auto &o) { chk(e, o.m, res_arr<T, N>(dsga::step(e[0], o.get()))); }, x);
  else hk<981 + N, NVAR>(c, [&](auto &o, auto &p) { chk(o.m, p.m, res_arr<T, N>(dsga::step(o.get(), p.get()))); }, e, x);
}
DO(step_t, "step");
// smoothstep
void smooth_ok(T a, T b, T x, T got) {
  if (x <= a) CK(got == 0, "smoothstep(" << pr(a) << ", " << pr(b) << ", " << pr(x) << ") is " << pr(got) << ", expected 0");
  if (x >= b) CK(got == 1, "smoothstep(" << pr(a) << ", " << pr(b) << ", " << pr(x) << ") is " << pr(got) << ", expected 1");
  CK(got >= 0 && got <= 1, "smoothstep(" << pr(a) << ", " << pr(b) << ", " << pr(x) << ") is " << pr(got));
  T d = x - a, e = b - a; long double t = (long double)d / (long double)e; t = t < 0 ? 0 : t > 1 ? 1 : t; long double w = t * t * (3 - 2 * t);
  CK(std::fabs((long double)got - w) <= 16 * EPS, "smoothstep(" << pr(a) << ", " << pr(b) << ", " << pr(x) << ") is " << pr(got) << ", expected about " << pr((T)w));
}
template <size_t N> void smooth_t(Case &c) {
  std::array<T, N> a, b, x; bool sc = N > 1 && c.coin();
  for (size_t i = 0; i < N; ++i) {
    if (sc && i) { a[i] = a[0]; b[i] = b[0]; }
    else { a[i] = gen_mid(c); b[i] = c.coin() ? gen_mid(c) : a[i] + (T)c.range(1, 64) / 8; if (b[i] < a[i]) std::swap(a[i], b[i]); if (!(a[i] < b[i])) b[i] = std::nextafter(a[i], INF); }
    switch (c.below(5)) { case 0: x[i] = a[i]; break; case 1: x[i] = b[i]; break; case 2: x[i] = gen_mid(c); break; default: x[i] = a[i] + (b[i] - a[i]) * ((T)c.range(-8, 72) / 64); }
  }
  NOTE(c, (sc ? "smoothstep(s,s,v) " : "smoothstep ") << show(a) << ", " << show(b) << ", " << show(x)); c.nontrivial();
  auto chk = [&](const auto &ma, const auto &mb, const auto &mx, const std::array<T, N> &got) { for (size_t i = 0; i < N; ++i) { smooth_ok(ma[i], mb[i], mx[i], got[i]); T s = dsga::smoothstep(ma[i], mb[i], mx[i]); CK(numeq(s, got[i]), "scalar smoothstep gives " << pr(s) << ", vector " << pr(got[i])); } };
  if (sc) hk<991 + N, NVAR>(c, [&](auto &o) { chk(a, b, o.m, res_arr<T, N>(dsga::smoothstep(a[0], b[0], o.get()))); }, x);
  else hk<1001 + N, NVAR>(c, [&](auto &o, auto &p, auto &q) { for (size_t i = 0; i < N; ++i) if (!(o.m[i] < p.m[i])) { c.label("discarded"); return; } chk(o.m, p.m, q.m, res_arr<T, N>(dsga::smoothstep(o.get(), p.get(), q.get()))); }, a, b, x);
}
DO(smooth_t, "smoothstep");
#endif
}
