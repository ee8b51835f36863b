// C12: bit-level functions. PART 0: float, 1: double, 2..6: byteswap of int, unsigned, long long, unsigned long long, size_t.
#include "kinds.hpp"
namespace {
using namespace dsga;
template <class T> constexpr T bswap_ref(T x) { T r = 0; using U = std::make_unsigned_t<T>; U u = (U)x, v = 0; for (size_t i = 0; i < sizeof(T); ++i) { v = (U)((v << 8) | (u & 0xff)); u = (U)(u >> 8); } r = (T)v; return r; }
#if PART < 2
using T = std::conditional_t<PART == 0, float, double>;
using I = std::conditional_t<PART == 0, int, ll>; using U = std::conditional_t<PART == 0, unsigned, ull>;
using L = std::numeric_limits<T>;
constexpr int MB = mant_bits<T>; constexpr U EXPMASK = PART == 0 ? (U)0x7f800000u : (U)0x7ff0000000000000ull, MANTMASK = (U(1) << MB) - 1;
auto f2i(const auto &x) { if constexpr (PART == 0) return floatBitsToInt(x); else return doubleBitsToLongLong(x); }
auto f2u(const auto &x) { if constexpr (PART == 0) return floatBitsToUint(x); else return doubleBitsToUlongLong(x); }
auto i2f(const auto &x) { if constexpr (PART == 0) return intBitsToFloat(x); else return longLongBitsToDouble(x); }
auto u2f(const auto &x) { if constexpr (PART == 0) return uintBitsToFloat(x); else return ulongLongBitsToDouble(x); }
U gen_bits(Case &c) {
  switch (c.below(5)) { case 0: return (U)c.below(sizeof(T) == 4 ? 1ull << 32 : ~0ull); case 1: return (U)(EXPMASK | (c.coin() ? 0 : (U)c.below((ull)MANTMASK + 1)) | (U(c.below(2)) << (sizeof(T) * 8 - 1)));
    case 2: return (U)((U(c.below(2)) << (sizeof(T) * 8 - 1)) | (U)c.below((ull)MANTMASK + 1)); case 3: return (U)((U(c.below(2)) << (sizeof(T) * 8 - 1)) | ((U)c.below(((ull)EXPMASK >> MB) + 1) << MB) | (c.coin() ? (U(1) << c.below(MB)) - 1 : U(1) << c.below(MB)));
    default: return (U)((U)to_bits(gen_any<T>(c))); }
}
bool nan_bits(U b) { return (b & EXPMASK) == EXPMASK && (b & MANTMASK); } bool inf_bits(U b) { return (b & EXPMASK) == EXPMASK && !(b & MANTMASK); }
T as_float(U b) { T f; std::memcpy(&f, &b, sizeof f); return f; } U as_bits(T f) { U b; std::memcpy(&b, &f, sizeof b); return b; }
template <size_t N> void bits_n(Case &c) {
  std::array<U, N> b; for (auto &x : b) x = gen_bits(c); std::array<T, N> f; for (size_t i = 0; i < N; ++i) f[i] = as_float(b[i]); std::array<I, N> s; for (size_t i = 0; i < N; ++i) s[i] = (I)b[i]; NOTE(c, "bit patterns " << show(b) << " of " << tname<T>());
  hk<1200 + N, 6>(c, [&](auto &of, auto &os, auto &ou) {
    auto ri = res_arr<I, N>(f2i(of.get())); auto ru = res_arr<U, N>(f2u(of.get())); auto rf = res_arr<T, N>(i2f(os.get())); auto rg = res_arr<T, N>(u2f(ou.get())); auto nn = res_arr<bool, N>(isnan(of.get())); auto ii = res_arr<bool, N>(isinf(of.get()));
    for (size_t i = 0; i < N; ++i) {
      U fb = as_bits(of.m[i]); CK((U)ri[i] == fb, "float to signed bits: component " << i << " is " << show((U)ri[i]) << ", expected " << show(fb)); CK(ru[i] == fb, "float to unsigned bits: component " << i << " is " << show(ru[i]) << ", expected " << show(fb));
      CK(as_bits(rf[i]) == (U)os.m[i], "signed bits to float: component " << i); CK(as_bits(rg[i]) == ou.m[i], "unsigned bits to float: component " << i << " has bits " << show(as_bits(rg[i])) << ", expected " << show(ou.m[i]));
      CK(nn[i] == nan_bits(fb), "isnan of bits " << show(fb) << " is " << nn[i]); CK(ii[i] == inf_bits(fb), "isinf of bits " << show(fb) << " is " << ii[i]);
    }
  }, f, s, b);
  for (size_t i = 0; i < N; ++i) { CK((U)f2i(f[i]) == b[i] && f2u(f[i]) == b[i] && as_bits(i2f(s[i])) == b[i] && as_bits(u2f(b[i])) == b[i], "scalar reinterpretations of " << show(b[i])); CK(isnan(f[i]) == nan_bits(b[i]) && isinf(f[i]) == inf_bits(b[i]), "scalar isnan / isinf of bits " << show(b[i])); }
  { basic_vector<U, N> v = mk(b); auto g = u2f(v); auto r = f2u(g); if constexpr (N > 1) for (size_t i = 0; i < N; ++i) CK(r[i] == b[i], "round trip of the bit pattern " << show(b[i])); } c.nontrivial(N == 1 || all_distinct(b));
}
template <size_t N> void frexp_n(Case &c) {
  std::array<T, N> a; for (auto &x : a) { x = c.chance(1, 4) ? as_float((U)(gen_bits(c))) : gen_finite<T>(c); if (!std::isfinite(x) && c.chance(3, 4)) x = T(1.5); } NOTE(c, "frexp of " << show(a)); bool special = false; for (auto x : a) special |= !std::isfinite(x);
  auto check = [&](const auto &m, const std::array<T, N> &s, const std::array<int, N> &e, const char *k) { for (size_t i = 0; i < N; ++i) { T x = m[i]; if (!std::isfinite(x)) { CK(same(s[i], x), k << ": significand of " << show(x) << " is " << show(s[i])); continue; }
      int we; T ws = std::frexp(x, &we); CK(same(s[i], ws) && e[i] == we, k << ": frexp(" << show(x) << ") is " << show(s[i]) << ", " << e[i]); CK(x == 0 ? (s[i] == 0 && e[i] == 0) : (std::fabs(s[i]) >= T(0.5) && std::fabs(s[i]) < 1), k << ": significand " << show(s[i])); long double back = std::ldexp((long double)s[i], e[i]); CK(back == (long double)x, k << ": significand times two to the exponent is not the argument"); } };
  with_kind<T, N>(c, a, [&](auto &v, const auto &m) {
    auto &cv = std::as_const(v); std::array<int, N> e{};
    { basic_vector<int, N> x(77); auto r = res_arr<T, N>(frexp(cv, x)); for (size_t i = 0; i < N; ++i) e[i] = x[i]; check(m, r, e, "into a vector"); auto back = res_arr<T, N>(ldexp(cv, x)); (void)back; if (!special) { basic_vector<T, N> sv = mk(r); auto q = res_arr<T, N>(ldexp(sv, x)); for (size_t i = 0; i < N; ++i) CK(same(q[i], m[i]), "ldexp of frexp: component " << i << " is " << show(q[i]) << ", expected " << show(m[i])); } }
    { int buf[N + 2]; for (auto &z : buf) z = 55; basic_view<true, int, N> w(buf + 1); auto r = res_arr<T, N>(frexp(v, w)); for (size_t i = 0; i < N; ++i) e[i] = buf[i + 1]; check(m, r, e, "into a view"); CK(buf[0] == 55 && buf[N + 1] == 55, "frexp wrote next to its out parameter"); }
    { basic_vector<int, 4> x(91, 92, 93, 94); auto go = [&](auto &sw, std::array<int, 4> pos) { auto r = res_arr<T, N>(frexp(cv, sw)); for (size_t i = 0; i < N; ++i) e[i] = x[pos[i]]; check(m, r, e, "into a swizzle"); for (int i = 0; i < 4; ++i) { bool used = false; for (size_t k = 0; k < N; ++k) used |= pos[k] == i; CK(used || x[i] == 91 + i, "frexp wrote a component outside its out parameter"); } }; if constexpr (N == 1) go(x.z, {2}); else if constexpr (N == 2) go(x.wx, {3, 0}); else if constexpr (N == 3) go(x.ywx, {1, 3, 0}); else go(x.wyxz, {3, 1, 0, 2}); }
    { int buf[6] = {91, 92, 93, 94, 95, 96}; basic_view<true, int, 4> x(buf + 1); auto go = [&](auto &sw, std::array<int, 4> pos) { auto r = res_arr<T, N>(frexp(cv, sw)); for (size_t i = 0; i < N; ++i) e[i] = buf[1 + pos[i]]; check(m, r, e, "into a view swizzle"); CK(buf[0] == 91 && buf[5] == 96, "frexp wrote next to the view"); }; if constexpr (N == 1) go(x.y, {1}); else if constexpr (N == 2) go(x.zy, {2, 1}); else if constexpr (N == 3) go(x.zxw, {2, 0, 3}); else go(x.yzwx, {1, 2, 3, 0}); }
    for (size_t i = 0; i < N; ++i) CK(same(T(v[i]), m[i]), "the argument changed");
  });
  for (size_t i = 0; i < N; ++i) { int e = 44; T s = frexp(a[i], e); int we; T ws = std::frexp(a[i], &we); CK(same(s, ws) && (!std::isfinite(a[i]) || e == we), "scalar frexp"); } c.nontrivial(N == 1 || all_distinct(a));
}
int gen_exp(Case &c) { switch (c.below(6)) { case 0: return (int)c.range(-20, 20); case 1: return (int)c.range(-2200, 2200); case 2: { int b[] = {INT_MIN, INT_MAX, INT_MIN + 1, 100000, -100000}; return b[c.below(5)]; } case 3: return (int)c.range(-1100, 1100); default: return (int)c.range(-160, 160); } }
T ldexp_ref(T x, int e) { if (x == 0 || !std::isfinite(x)) return x; if (e > 5000) e = 5000; if (e < -5000) e = -5000; return (T)std::ldexp((long double)x, e); }
template <size_t N> void ldexp_n(Case &c) {
  std::array<T, N> a; std::array<int, N> e; for (auto &x : a) x = c.chance(1, 6) ? gen_any<T>(c) : gen_finite<T>(c); for (size_t i = 0; i < N; ++i) { e[i] = gen_exp(c); if (c.chance(1, 3) && a[i] != 0 && std::isfinite(a[i])) e[i] = (c.coin() ? L::min_exponent - MB - 1 + (int)c.range(-2, MB + 4) : L::max_exponent + (int)c.range(-2, 2)) - std::ilogb(a[i]); }
  NOTE(c, "ldexp of " << show(a) << " and " << show(e)); bool sub = false;
  hk<1240 + N, 6>(c, [&](auto &oa, auto &oe) { auto r = res_arr<T, N>(ldexp(oa.get(), oe.get())); for (size_t i = 0; i < N; ++i) { T w = ldexp_ref(oa.m[i], oe.m[i]); sub |= std::fpclassify(w) == FP_SUBNORMAL; CK(same(r[i], w) && (w != w || std::signbit(r[i]) == std::signbit(w)), "ldexp(" << show(oa.m[i]) << ", " << oe.m[i] << ") is " << show(r[i]) << ", expected " << show(w)); CK(same(T(ldexp(T(oa.m[i]), (int)oe.m[i])), w), "scalar ldexp"); } }, a, e); c.label(sub ? "subnormal result" : "other"); c.nontrivial(N == 1 || (all_distinct(a) && all_distinct(e)));
}
template <size_t N> void fma_n(Case &c) {
  std::array<T, N> a, b, d; bool err = c.coin(); for (size_t i = 0; i < N; ++i) { a[i] = c.chance(1, 8) ? gen_any<T>(c) : gen_finite<T>(c); b[i] = c.chance(1, 8) ? gen_any<T>(c) : gen_finite<T>(c); if (c.chance(2, 3)) { a[i] = T(1) + T(c.below(1ull << MB)) / T(1ull << MB); b[i] = T(1) + T(c.below(1ull << MB)) / T(1ull << MB); } d[i] = err ? -(a[i] * b[i]) : gen_any<T>(c); if (err && c.chance(1, 4)) d[i] = std::nextafter(d[i], T(0)); }
  NOTE(c, "fma of " << show(a) << ", " << show(b) << ", " << show(d)); bool matters = false;
  hk<1280 + N, 6>(c, [&](auto &x, auto &y, auto &z) { auto r = res_arr<T, N>(fma(x.get(), y.get(), z.get())); for (size_t i = 0; i < N; ++i) { T w = std::fma(x.m[i], y.m[i], z.m[i]); volatile T p = x.m[i] * y.m[i]; T naive = p + z.m[i]; matters |= !same(naive, w); CK(same(r[i], w), "fma(" << show(x.m[i]) << ", " << show(y.m[i]) << ", " << show(z.m[i]) << ") is " << show(r[i]) << ", expected " << show(w)); CK(same(T(fma(T(x.m[i]), T(y.m[i]), T(z.m[i]))), w), "scalar fma");
      T av = std::fabs(x.m[i]), bv = std::fabs(y.m[i]); if (av >= 1 && av < 2 && bv >= 1 && bv < 2 && std::fabs(z.m[i]) < 8 && std::fabs(z.m[i]) >= 0.125) { __float128 ex = (__float128)x.m[i] * y.m[i] + z.m[i]; CK(r[i] == (T)ex, "fma is not the correctly rounded a * b + c"); } } }, a, b, d); c.label(matters ? "rounding matters" : "other"); c.nontrivial(matters);
}
#define BYN(F) void F(Case &c) { switch (c.below(4)) { case 0: F##_n<1>(c); break; case 1: F##_n<2>(c); break; case 2: F##_n<3>(c); break; default: F##_n<4>(c); } }
BYN(bits)
namespace fr { BYN(frexp) } namespace ld { BYN(ldexp) } namespace fm { BYN(fma) }
#define NM(X) ((const char *)[] { static std::string s = std::string("C12.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("bits"), 1.5, bits); PBT_PROP(NM("frexp"), 1, fr::frexp); PBT_PROP(NM("ldexp"), 1, ld::ldexp); PBT_PROP(NM("fma"), 1, fm::fma);
#else
using T = std::tuple_element_t<PART - 2, std::tuple<int, unsigned, ll, ull, sz>>;
template <size_t N> void swap_n(Case &c) {
  std::array<T, N> a; for (auto &x : a) x = c.coin() ? gen_any<T>(c) : (T)(ull)(0x0102030405060708ull * (1 + c.below(16)) + c.below(256)); NOTE(c, "byteswap of " << tname<T>() << " " << show(a));
  with_kind<T, N>(c, a, [&](auto &v, const auto &m) { auto r = res_arr<T, N>(byteswap(std::as_const(v))); for (size_t i = 0; i < N; ++i) { T w = bswap_ref<T>(m[i]); CK(r[i] == w, "byteswap: component " << i << " of " << show(m[i]) << " is " << show(r[i]) << ", expected " << show(w)); CK(byteswap(T(m[i])) == w && byteswap(w) == m[i], "scalar byteswap"); CK(same(T(v[i]), m[i]), "the argument changed"); } basic_vector<T, N> q = mk(r); auto back = res_arr<T, N>(byteswap(q)); for (size_t i = 0; i < N; ++i) CK(back[i] == m[i], "byteswap twice"); });
  enum class En : T {}; T x = a[0]; constexpr bool ty = std::is_same_v<decltype(to_underlying(En())), T>; CK(ty && to_underlying(static_cast<En>(x)) == x, "to_underlying"); c.nontrivial(N == 1 || all_distinct(a));
}
void swaps(Case &c) { switch (c.below(4)) { case 0: swap_n<1>(c); break; case 1: swap_n<2>(c); break; case 2: swap_n<3>(c); break; default: swap_n<4>(c); } }
PBT_PROP(((const char *)[] { static std::string s = std::string("C12.byteswap.") + tname<T>(); return s.c_str(); }()), 1, swaps);
#endif
}
