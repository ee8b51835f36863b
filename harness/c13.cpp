// C13: constant evaluation against run-time evaluation. Every operation is a constexpr function of a seed; a table of batches is evaluated
// by the compiler and the same functions are run again at run time. PART 0-7: element types; 8-10: float, double, int with clang; 11-12: matrices, 13: with clang; 14-17: programs, 18: with clang.
#include "pbt.hpp"

#include <dsga.hxx>
#include <bit>
#include <cmath>
#ifndef VSEED
#define VSEED 1
#endif
#ifndef NBATCH
#define NBATCH 2
#endif
namespace {
using namespace dsga; using pbt::Case; using pbt::show;
using ll = long long; using ull = unsigned long long; using sz = std::size_t;
template <class T> std::string tn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, unsigned> ? "unsigned" : std::is_same_v<T, ll> ? "long long" : std::is_same_v<T, ull> ? "unsigned long long" : std::is_same_v<T, sz> ? "size_t" : std::is_same_v<T, float> ? "float" : "double"; }
constexpr int BATCH = 6;
struct G {
  ull s;
  constexpr ull next() { s += 0x9e3779b97f4a7c15ull; ull z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  constexpr ull below(ull n) { return next() % n; }
  constexpr ll range(ll a, ll b) { return a + (ll)below((ull)(b - a + 1)); }
  // a floating-point value with exponent in [lo, hi], random fraction and sign
  template <class T> constexpr T expo(int lo, int hi) {
    if constexpr (sizeof(T) == 4) return std::bit_cast<float>((unsigned)((unsigned)below(2) << 31 | (unsigned)(range(lo, hi) + 127) << 23 | (below(3) == 0 ? (unsigned)below(4) << 21 : (unsigned)below(1u << 23))));
    else return std::bit_cast<double>((ull)(below(2) << 63 | (ull)(range(lo, hi) + 1023) << 52 | (below(3) == 0 ? below(4) << 50 : below(1ull << 52))));
  }
  template <class T> constexpr T fin() { // any finite value
    if constexpr (std::is_same_v<T, bool>) return below(2) != 0;
    else if constexpr (std::is_floating_point_v<T>) { constexpr int E = std::numeric_limits<T>::max_exponent - 1; switch (below(8)) { case 0: return T((int)range(-9, 9)) / T(2); case 1: return T((int)range(-2000001, 2000001)) / T(2); case 2: return std::numeric_limits<T>::max() * T(below(2) ? 1 : -1); case 3: return std::numeric_limits<T>::denorm_min() * T((int)range(-9, 9)); case 4: return expo<T>(-1, std::numeric_limits<T>::digits + 1); case 5: { T x = T((int)range(-40, 40)) / T(2); constexpr T h = std::numeric_limits<T>::epsilon() / 4; return below(2) ? x * (T(1) + 4 * h) : x * (T(1) - 2 * h); } default: return expo<T>(-E + 1, E); } }
    else { switch (below(4)) { case 0: return (T)range(std::is_signed_v<T> ? -9 : 0, 9); case 1: return std::numeric_limits<T>::max() - (T)below(3); case 2: return std::numeric_limits<T>::min() + (T)below(3); default: return (T)next(); } }
  }
  template <class T> constexpr T fin_mag() { T x = fin<T>(); return x < 0 ? (x == std::numeric_limits<T>::min() ? T(5) : T(-x)) : x; }
  template <class T> constexpr T mid(int e) { // products and sums of a few stay in range
    if constexpr (std::is_same_v<T, bool>) return below(2) != 0;
    else if constexpr (std::is_floating_point_v<T>) { int k = sizeof(T) == 4 ? e : e * 8; switch (below(3)) { case 0: return T((int)range(-9, 9)) / T(2); case 1: return expo<T>(-3, 3); default: return expo<T>(-k, k); } }
    else if constexpr (std::is_signed_v<T>) return (T)(below(2) ? range(-9, 9) : range(-30000, 30000));
    else return (T)(below(2) ? below(10) : next());
  }
  template <class T> constexpr T nz(int e) { T x = mid<T>(e); return x == T(0) ? T(1) : x; }
  template <class T> constexpr T tiny_int() { if constexpr (std::is_same_v<T, bool>) return below(2) != 0; else return (T)range(std::is_unsigned_v<T> ? 0 : -100, 100); }
  template <class T> constexpr T special() { switch (below(5)) { case 0: return std::numeric_limits<T>::infinity(); case 1: return -std::numeric_limits<T>::infinity(); case 2: return std::numeric_limits<T>::quiet_NaN(); default: return fin<T>(); } }
};
#define ALLN(M) template <class T, size_t N> constexpr basic_vector<T, N> M(G &g)
template <class T, size_t N, class F> constexpr basic_vector<T, N> fill(F f) { basic_vector<T, N> v{}; for (size_t i = 0; i < N; ++i) v[i] = f(); return v; }
ALLN(vf) { return fill<T, N>([&] { return g.template fin<T>(); }); }
ALLN(vs) { return fill<T, N>([&] { return g.template special<T>(); }); }
ALLN(vm) { return fill<T, N>([&] { return g.template mid<T>(10); }); }
ALLN(vn) { return fill<T, N>([&] { return g.template nz<T>(10); }); }
ALLN(vp) { return fill<T, N>([&] { T x = g.template nz<T>(10); return x < 0 ? T(-x) : x; }); }
ALLN(vt) { return fill<T, N>([&] { return g.template tiny_int<T>(); }); }
ALLN(vwide) { return fill<T, N>([&] { return g.template mid<T>(60); }); }
// results become arrays
template <class E, size_t K> struct Res { using elem = E; std::array<E, K> a{}; };
template <class E> concept scalar_like = std::is_arithmetic_v<E>;
template <scalar_like E> constexpr auto flat(E x) { return Res<E, 1>{{x}}; }
template <class E, size_t K> constexpr auto flat(const std::array<E, K> &x) { return Res<E, K>{x}; }
template <class E, size_t K> constexpr auto flat(const basic_vector<E, K> &x) { Res<E, K> r{}; for (size_t i = 0; i < K; ++i) r.a[i] = x[i]; return r; }
template <class E, size_t K, class V> constexpr auto flatv(const V &x) { Res<E, K> r{}; for (size_t i = 0; i < K; ++i) r.a[i] = x[i]; return r; }
template <class E, size_t C, size_t R> constexpr auto flat(const basic_matrix<E, C, R> &x) { Res<E, C * R> r{}; for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) r.a[i * R + j] = x[i][j]; return r; }
template <class A, class B> constexpr auto flat2(const A &a, const B &b) { auto x = flat(a); auto y = flat(b); Res<typename decltype(x)::elem, x.a.size() + y.a.size()> r{}; size_t k = 0; for (auto e : x.a) r.a[k++] = e; for (auto e : y.a) r.a[k++] = (typename decltype(x)::elem)e; return r; }
template <class A, class B, class... C> constexpr auto cat(const A &a, const B &b, const C &...c) { if constexpr (sizeof...(C) == 0) return flat2(a, b); else return cat(flat2(a, b).a, c...); }
template <class T> inline constexpr bool fp = std::is_floating_point_v<T>;
template <class T> inline constexpr bool nb = !std::is_same_v<T, bool>;
template <class T> inline constexpr bool integ = std::is_integral_v<T> && nb<T>;
template <class T> inline constexpr bool sgn = std::is_signed_v<T>;
// OP(name, tolerance in ulps, condition on T and N, body using g)
#define OP(NAME, TOL, COND, ...) struct NAME { static constexpr const char *name = #NAME; static constexpr int tol = TOL; template <class T, size_t N, size_t M> static constexpr bool ok = (COND); template <class T, size_t N, size_t M> static constexpr auto run(G &g) { (void)g; __VA_ARGS__ } };
#define V1(NAME, TOL, COND, GEN, EXPR) OP(NAME, TOL, COND, auto v = GEN<T, N>(g); return flat(EXPR);)
#define V2(NAME, TOL, COND, GEN, EXPR) OP(NAME, TOL, COND, auto v = GEN<T, N>(g); auto u = GEN<T, N>(g); return flat(EXPR);)
namespace op {
#if PART < 11
// construction
OP(ctor_list, 0, true, T a = g.fin<T>(), b = g.fin<T>(), c = g.fin<T>(), d = g.fin<T>(); if constexpr (N == 1) return flat(basic_vector<T, 1>(a)); else if constexpr (N == 2) return flat(basic_vector<T, 2>(a, b)); else if constexpr (N == 3) return flat(basic_vector<T, 3>(a, b, c)); else return flat(basic_vector<T, 4>(a, b, c, d));)
OP(ctor_splat, 0, true, return flat(basic_vector<T, N>(g.fin<T>()));)
OP(ctor_parts, 0, N >= 2, auto a = vf<T, N - 1>(g); T b = g.fin<T>(); return cat(basic_vector<T, N>(a, b), basic_vector<T, N>(b, a));)
OP(ctor_longer, 0, true, auto a = vf<T, 4>(g); return flat(basic_vector<T, N>(a));)
OP(ctor_ctad, 0, N >= 2, T a = g.fin<T>(), b = g.fin<T>(), c = g.fin<T>(), d = g.fin<T>(); if constexpr (N == 2) return flat(basic_vector(a, b)); else if constexpr (N == 3) return flat(basic_vector(a, b, c)); else return flat(basic_vector(a, b, c, d));)
OP(ctor_zero, 0, true, basic_vector<T, N> v{}; return flat(v);)
OP(convert, 0, true, auto v = vt<T, N>(g); if constexpr (std::is_unsigned_v<T> && nb<T>) ; std::array<double, 8 * N> r{}; size_t k = 0; auto put = [&](const auto &u) { for (size_t i = 0; i < N; ++i) r[k++] = (double)u[i]; }; basic_vector<T, N> w = v; if constexpr (sgn<T>) w = abs(v); put(basic_vector<bool, N>(v)); put(basic_vector<int, N>(v)); put(basic_vector<unsigned, N>(w)); put(basic_vector<ll, N>(v)); put(basic_vector<ull, N>(w)); put(basic_vector<sz, N>(w)); put(basic_vector<float, N>(v)); put(basic_vector<double, N>(v)); return flat(r);)
OP(convert_neg_to_unsigned, 0, integ<T>, auto v = vf<T, N>(g); std::array<ull, 4 * N> r{}; for (size_t i = 0; i < N; ++i) { r[i] = basic_vector<unsigned, N>(v)[i]; r[N + i] = basic_vector<ull, N>(v)[i]; r[2 * N + i] = (ull)basic_vector<int, N>(v)[i]; r[3 * N + i] = basic_vector<bool, N>(v)[i]; } return flat(r);)
OP(implicit_wider, 0, (std::is_same_v<T, int> || std::is_same_v<T, float>), auto v = vf<T, N>(g); basic_vector<double, N> d = v; return flat(d);)
// access
OP(index_write, 0, true, auto v = vf<T, N>(g); for (int i = 0; i < (int)N; ++i) if (g.below(2)) v[i] = g.fin<T>(); for (size_t i = 0; i < N; ++i) if (g.below(3) == 0) v[i] = v[(i + 1) % N]; return flat(v);)
OP(data_ptr, 0, true, auto v = vf<T, N>(g); for (size_t i = 0; i < N; ++i) v.data()[i] = g.fin<T>(); const auto c = v; std::array<T, N> r{}; for (size_t i = 0; i < N; ++i) r[i] = c.data()[N - 1 - i]; return flat(r);)
OP(set_all, 0, true, auto v = vf<T, N>(g); T a = g.fin<T>(), b = g.fin<T>(), c = g.fin<T>(), d = g.fin<T>(); if constexpr (N == 1) v.set(a); else if constexpr (N == 2) v.set(a, b); else if constexpr (N == 3) v.set(a, b, c); else v.set(a, b, c, d); return flat(v);)
OP(get_elem, 0, true, auto v = vf<T, N>(g); T r = get<N - 1>(v); get<0>(v) = g.fin<T>(); return cat(v, r, get<0>(std::as_const(v)));)
OP(iterate, 0, true, auto v = vf<T, N>(g); std::array<T, 4 * N> r{}; size_t k = 0; for (auto x : v) r[k++] = x; for (auto i = v.rbegin(); i != v.rend(); ++i) r[k++] = *i; for (auto i = v.cbegin(); i != v.cend(); i++) r[k++] = *i; for (auto i = v.crbegin(); i < v.crend(); i += 1) r[k++] = i[0]; for (auto &x : v) x = g.fin<T>(); return cat(r, v);)
OP(sizes, 0, true, auto v = vf<T, N>(g); return flat(std::array<ll, 3>{(ll)v.size(), (ll)v.length(), (ll)std::tuple_size_v<basic_vector<T, N>>});)
OP(swap_, 0, true, auto v = vf<T, N>(g); auto u = vf<T, N>(g); swap(v, u); auto r = cat(v, u); v.swap(u); return cat(r.a, v, u);)
OP(copy_assign, 0, true, auto v = vf<T, N>(g); auto u = vf<T, N>(g); auto c = v; c[0] = u[0]; v = u; u[N - 1] = c[N - 1]; return cat(v, u, c);)
OP(arrays, 0, true, auto v = vf<T, N>(g); std::array<T, N> a = to_array(v); T b[N] = {}; for (size_t i = 0; i < N; ++i) b[i] = a[N - 1 - i]; return cat(to_vector(a), to_vector(b));)
OP(shift_, 0, true, auto v = vf<T, N>(g); int d = (int)g.range(-9, 9); return flat(v.shift(d));)
OP(apply_query, 0, nb<T>, auto v = vm<T, N>(g); int calls = 0; auto a = v.apply([&](T x) { ++calls; return T(x + T(1)); }); auto q = v.query([](T x) { return x < T(3); }); return cat(a, T(calls), basic_vector<bool, N>(q));)
OP(sum_min_max, 0, nb<T>, auto v = vm<T, N>(g); return flat(std::array<T, 3>{T(v.sum()), v.min(), v.max()});)
OP(binding, 0, N == 3, auto v = vf<T, 3>(g); auto [a, b, c] = v; auto &[x, y, z] = v; y = a; return cat(v, a, b, c);)
// comparison
OP(equality, 0, true, auto v = vf<T, N>(g); auto u = g.below(2) ? v : vf<T, N>(g); if (g.below(3) == 0) u[N - 1] = g.fin<T>(); return flat(std::array<bool, 3>{v == u, v != u, v == v});)
OP(rel, 0, nb<T>, auto v = vf<T, N>(g); auto u = vf<T, N>(g); for (size_t i = 0; i < N; ++i) if (g.below(3) == 0) u[i] = v[i]; return cat(lessThan(v, u), lessThanEqual(v, u), greaterThan(v, u), greaterThanEqual(v, u), equal(v, u), notEqual(v, u));)
OP(boolean, 0, !nb<T>, auto v = vf<T, N>(g); auto u = vf<T, N>(g); return cat(compAnd(v, u), compOr(v, u), compNot(v), equal(v, u), notEqual(v, u), any(v), all(v), none(v), logicalNot(v));)
// arithmetic
V2(add, 0, nb<T>, vm, v + u) V2(sub, 0, nb<T>, vm, v - u) OP(mul, 0, nb<T>, auto v = vm<T, N>(g); auto u = vm<T, N>(g); return cat(v * u, v * u[0], u[0] * v);) OP(div, 0, nb<T>, auto v = vm<T, N>(g); auto u = vn<T, N>(g); return cat(v / u, v / u[0], u[0] / u);)
OP(compound, 0, nb<T>, auto v = vm<T, N>(g); auto u = vn<T, N>(g); T s = g.nz<T>(4); auto w = v; if constexpr (integ<T> && sgn<T>) { w = vt<T, N>(g); s = T(3); u = vt<T, N>(g); for (size_t i = 0; i < N; ++i) if (u[i] == 0) u[i] = 1; } w += u; w -= s; w *= u; w /= s; w *= s; w += w; w /= u; w -= u; return flat(w);)
OP(incdec, 0, nb<T>, auto v = vt<T, N>(g); auto a = v++; auto b = ++v; auto c = v--; auto d = --v; return cat(v, a, b, c, d);)
V1(neg, 0, (sgn<T> && nb<T>), vm, -v) OP(pos, 0, nb<T>, auto v = vm<T, N>(g); return flat(+v);)
OP(mixed, 0, nb<T>, auto v = vt<T, N>(g); if constexpr (sgn<T>) v = abs(v); auto u = vt<int, N>(g); auto d = vm<double, N>(g); auto f = vm<float, N>(g); if constexpr (std::is_same_v<T, ll>) { return cat(v + u, v * 3, u * v); } else if constexpr (integ<T>) { return cat(d + v, f * v, v * 0.5, v - d); } else return cat(v + u, d * v, f - v, u / (v + T(1)), v * 3);)
OP(modulus, 0, integ<T>, auto v = vf<T, N>(g); auto u = vn<T, N>(g); for (size_t i = 0; i < N; ++i) if (u[i] == T(-1)) u[i] = T(7); auto w = v; w %= u; return cat(v % u, v % T(7), T(g.below(100)) % u, w);)
OP(bits, 0, integ<T>, auto v = vf<T, N>(g); auto u = vf<T, N>(g); auto a = v; auto b = v; auto c = v; a &= u; b |= u; c ^= u[0]; return cat(v & u, v | u, v ^ u, ~v, v & u[0], u[0] | v, a, b, c);)
OP(shifts, 0, integ<T>, auto v = vf<T, N>(g); auto p = v; if constexpr (sgn<T>) p = fill<T, N>([&] { return T(g.below(1000)); }); auto s = fill<int, N>([&] { return (int)g.below(20); }); auto a = p; a <<= s; auto b = v; b >>= s; return cat(p << s, v >> s, p << 3, v >> 5, a, b);)
// common functions
V1(abs_, 0, sgn<T> && nb<T>, vm, abs(v)) V1(sign_, 0, sgn<T> && nb<T>, vf, sign(v))
OP(min_, 0, nb<T>, auto v = vf<T, N>(g); auto u = vf<T, N>(g); T s = g.fin<T>(); return cat(min(v, u), max(v, u), min(v, s), max(v, s));)
OP(clamp_, 0, nb<T>, auto v = vf<T, N>(g); auto a = vf<T, N>(g); auto b = vf<T, N>(g); basic_vector<T, N> lo(min(a, b)), hi(max(a, b)); T x = lo[0], y = hi[0]; return cat(clamp(v, lo, hi), clamp(v, x, y));)
V1(abs_fp, 0, fp<T>, vs, abs(v)) V1(floor_, 0, fp<T>, vf, floor(v)) V1(ceil_, 0, fp<T>, vf, ceil(v)) V1(trunc_, 0, fp<T>, vf, trunc(v)) V1(round_, 0, fp<T>, vf, round(v)) V1(roundEven_, 0, fp<T>, vf, roundEven(v))
V1(fract_, 0, fp<T>, vf, fract(v)) V1(isnan_, 0, fp<T>, vs, isnan(v)) V1(isinf_, 0, fp<T>, vs, isinf(v)) V1(radians_, 0, fp<T>, vm, radians(v)) V1(degrees_, 0, fp<T>, vm, degrees(v))
V1(floor_special, 0, fp<T>, vs, floor(v)) V1(ceil_special, 0, fp<T>, vs, ceil(v)) V1(trunc_special, 0, fp<T>, vs, trunc(v)) V1(round_special, 0, fp<T>, vs, round(v)) V1(roundEven_special, 0, fp<T>, vs, roundEven(v))
OP(scalar_round, 0, (fp<T> && N == 1), T x = g.fin<T>(); return flat(std::array<T, 8>{dsga::floor(x), dsga::ceil(x), dsga::trunc(x), dsga::round(x), dsga::roundEven(x), dsga::fract(x), dsga::abs(x), dsga::sign(x)});)
OP(mod_, 0, fp<T>, auto v = vm<T, N>(g); auto u = vn<T, N>(g); return cat(mod(v, u), mod(v, u[0]));)
OP(modf_, 0, fp<T>, auto v = vf<T, N>(g); basic_vector<T, N> ip{}; auto r = modf(v, ip); return cat(r, ip);)
OP(step_, 0, fp<T>, auto v = vf<T, N>(g); auto u = vf<T, N>(g); if (g.below(2)) u[0] = v[0]; return cat(step(v, u), step(v[0], u));)
OP(smoothstep_, 0, fp<T>, auto v = vm<T, N>(g); auto u = vm<T, N>(g); auto e0 = min(v, u); auto e1 = max(v, u) + basic_vector<T, N>(1); auto x = vm<T, N>(g); basic_vector<T, N> a(e0), b(e1); for (size_t i = 0; i < N; ++i) if (!(a[i] < b[i])) { a[i] = T(-1); b[i] = T(2); } return cat(smoothstep(a, b, x), smoothstep(a[0], b[0], x));)
OP(mix_, 0, fp<T>, auto v = vm<T, N>(g); auto u = vm<T, N>(g); auto t = vm<T, N>(g); auto b = vf<bool, N>(g); return cat(mix(v, u, t), mix(v, u, t[0]), mix(v, u, b));)
OP(mix_sel, 0, true, auto v = vf<T, N>(g); auto u = vf<T, N>(g); auto b = vf<bool, N>(g); return flat(mix(v, u, b));)
OP(float_bits, 0, (std::is_same_v<T, float>), auto v = vf<T, N>(g); auto a = floatBitsToInt(v); auto b = floatBitsToUint(v); return cat(intBitsToFloat(basic_vector<int, N>(a)), uintBitsToFloat(basic_vector<unsigned, N>(b)));)
OP(float_bits_int, 0, (std::is_same_v<T, float>), auto v = vs<T, N>(g); return flat(floatBitsToInt(v));) OP(float_bits_uint, 0, (std::is_same_v<T, float>), auto v = vs<T, N>(g); return flat(floatBitsToUint(v));)
OP(double_bits, 0, (std::is_same_v<T, double>), auto v = vf<T, N>(g); return cat(longLongBitsToDouble(basic_vector<ll, N>(doubleBitsToLongLong(v))), ulongLongBitsToDouble(basic_vector<ull, N>(doubleBitsToUlongLong(v))));)
OP(byteswap_, 0, integ<T>, auto v = vf<T, N>(g); return cat(byteswap(v), byteswap(T(v[0])));)
// square roots and geometry
OP(sqrt_, 1, fp<T>, auto v = fill<T, N>([&] { return g.fin_mag<T>(); }); return flat(sqrt(v));) OP(inversesqrt_, 1, fp<T>, auto v = fill<T, N>([&] { T x = g.fin_mag<T>(); return x == 0 ? T(1) : x; }); return flat(inversesqrt(v));) OP(fast_inversesqrt_, 1, fp<T>, auto v = fill<T, N>([&] { T x = g.fin_mag<T>(); return x < std::numeric_limits<T>::min() ? T(1) : x; }); return flat(fast_inversesqrt(v));)
OP(sqrt_near_squares, 1, fp<T>, auto v = fill<T, N>([&] { T x = g.mid<T>(50); x = x * x; return g.below(2) ? x : x * (T(1) + std::numeric_limits<T>::epsilon() * T((int)g.range(-3, 3))); }); return flat(sqrt(v));)
OP(sqrt_many, 1, (fp<T> && N == 1), std::array<T, 96> r{}; for (size_t i = 0; i < 96; i += 3) { T x = g.fin_mag<T>(); if (g.below(2)) { x = g.expo<T>(-std::numeric_limits<T>::max_exponent + 2, std::numeric_limits<T>::max_exponent - 1); if (x < 0) x = -x; } if (x == 0) x = T(3); r[i] = dsga::sqrt(x); r[i + 1] = dsga::inversesqrt(x); r[i + 2] = x < std::numeric_limits<T>::min() ? T(0) : dsga::fast_inversesqrt(x); } return flat(r);)
OP(round_many, 0, (fp<T> && N == 1), std::array<T, 96> r{}; for (size_t i = 0; i < 96; i += 6) { T x = g.fin<T>(); if (g.below(3) == 0) x = T((int)g.range(-300, 300)) / T(2); if (g.below(4) == 0) { constexpr T lim = T(1ull << (std::numeric_limits<T>::digits - 1)); x = (lim + T((int)g.range(-4, 4)) / T(2)) * (g.below(2) ? T(1) : T(-1)); if (g.below(2)) x = x / T(2); } r[i] = dsga::floor(x); r[i + 1] = dsga::ceil(x); r[i + 2] = dsga::trunc(x); r[i + 3] = dsga::round(x); r[i + 4] = dsga::roundEven(x); r[i + 5] = dsga::fract(x); } return flat(r);)
OP(sqrt_special, 1, fp<T>, T in = std::numeric_limits<T>::infinity(), qn = std::numeric_limits<T>::quiet_NaN(); basic_vector<T, N> z(T(0)), i(in), n(T(-4) - T(g.below(100))), q(qn), m(-in); return cat(sqrt(z), sqrt(i), sqrt(n), sqrt(q), sqrt(m), inversesqrt(z), inversesqrt(i), inversesqrt(n), inversesqrt(q), fast_inversesqrt(z), fast_inversesqrt(i), fast_inversesqrt(n), fast_inversesqrt(q));)
OP(dot_, 0, nb<T>, auto v = vt<T, N>(g); auto u = vt<T, N>(g); if constexpr (fp<T>) { v = vm<T, N>(g); u = vm<T, N>(g); return cat(dot(v, u), innerProduct(v, u)); } else return flat(innerProduct(v, u));)
OP(length_, 2, fp<T>, auto v = vm<T, N>(g); auto u = vm<T, N>(g); return cat(length(v), distance(v, u));)
OP(cross_, 0, (fp<T> && N == 3), auto v = vm<T, N>(g); auto u = vm<T, N>(g); return flat(cross(v, u));)
OP(normalize_, 3, (fp<T> && N > 1), auto v = vn<T, N>(g); return flat(normalize(v));)
OP(faceforward_, 0, (fp<T> && N > 1), auto v = vm<T, N>(g); auto u = vm<T, N>(g); auto w = vm<T, N>(g); return flat(faceforward(v, u, w));)
OP(reflect_, 0, (fp<T> && N > 1), auto v = vm<T, N>(g); auto u = vm<T, N>(g); return flat(reflect(v, u));)
OP(refract_, 64, (fp<T> && N > 1), auto v = normalize(vn<T, N>(g)); auto u = normalize(vn<T, N>(g)); T eta = T(1 + g.below(30)) / T(16); basic_vector<T, N> a(v), b(u); return flat(refract(a, b, eta));)
// views
OP(view_read, 0, true, T a[N] = {}; for (auto &x : a) x = g.fin<T>(); basic_view<true, T, N> w(a); basic_view<false, T, N> c(a); basic_vector<T, N> r(w); return cat(r, basic_vector<T, N>(c), w[0], c[N - 1], (T)w.size());)
OP(view_write, 0, true, T a[N + 2] = {}; for (auto &x : a) x = g.fin<T>(); basic_view<true, T, N> w(a + 1); w[0] = g.fin<T>(); if constexpr (nb<T>) w = vf<T, N>(g); for (auto &x : w) if (g.below(2)) x = g.fin<T>(); std::array<T, N + 2> r{}; for (size_t i = 0; i < N + 2; ++i) r[i] = a[i]; return flat(r);)
OP(view_math, 0, nb<T>, T a[N] = {}; for (auto &x : a) x = g.nz<T>(5); basic_view<true, T, N> w(a); auto v = vt<T, N>(g); w += v; w -= T(1); basic_vector<T, N> s(w); return cat(w + v, v - w, s, w == s);)
OP(view_reset, 0, true, T a[N] = {}, b[N] = {}; for (auto &x : a) x = g.fin<T>(); for (auto &x : b) x = g.fin<T>(); basic_view<true, T, N> w(a); w.reset(b); w[N - 1] = g.fin<T>(); std::array<T, 2 * N> r{}; for (size_t i = 0; i < N; ++i) r[i] = a[i], r[N + i] = b[i]; return flat(r);)
OP(owning_view, 0, true, auto v = vf<T, N>(g); view_vector<T, N> o(v); o[0] = g.fin<T>(); auto p = o; p[N - 1] = g.fin<T>(); o = p; return cat(basic_vector<T, N>(o), basic_vector<T, N>(p), o == p);)
OP(view_iterate, 0, true, T a[N] = {}; for (auto &x : a) x = g.fin<T>(); basic_view<true, T, N> w(a); std::array<T, 2 * N> r{}; size_t k = 0; for (auto i = w.rbegin(); i != w.rend(); ++i) r[k++] = *i; for (auto i = w.cbegin(); i != w.cend(); ++i) r[k++] = *i; return flat(r);)
OP(view_fn, 0, fp<T>, T a[N] = {}; for (auto &x : a) x = g.fin<T>(); basic_view<true, T, N> w(a); basic_vector<T, N> c = vm<T, N>(g); return cat(floor(w), abs(w), min(w, c), sign(w));)
OP(cross_view, 0, (fp<T> && N == 3), T a[3] = {}, b[3] = {}; for (auto &x : a) x = g.mid<T>(10); for (auto &x : b) x = g.mid<T>(10); basic_view<true, T, 3> u(a); basic_view<false, T, 3> v(b); auto w = vm<T, 3>(g); view_vector<T, 3> o(w); return cat(cross(u, v), cross(u, w), cross(w, v), cross(o, w));)
using all = std::tuple<ctor_list, ctor_splat, ctor_parts, ctor_longer, ctor_ctad, ctor_zero, convert, convert_neg_to_unsigned, implicit_wider, index_write, data_ptr, set_all, get_elem, iterate, sizes, swap_, copy_assign, arrays, shift_, apply_query, sum_min_max, binding,
  equality, rel, boolean, add, sub, mul, div, compound, incdec, neg, pos, mixed, modulus, bits, shifts, abs_, sign_, min_, clamp_, abs_fp, floor_, ceil_, trunc_, round_, roundEven_, fract_, isnan_, isinf_, radians_, degrees_, floor_special, ceil_special, trunc_special, round_special, roundEven_special, scalar_round, mod_, modf_, step_, smoothstep_, mix_, mix_sel,
  float_bits, float_bits_int, float_bits_uint, double_bits, byteswap_, sqrt_, inversesqrt_, fast_inversesqrt_, sqrt_near_squares, sqrt_many, round_many, sqrt_special, dot_, length_, cross_, normalize_, faceforward_, reflect_, refract_, view_read, view_write, view_math, view_reset, owning_view, view_iterate, view_fn, cross_view>;
using T0 = std::tuple_element_t<PART < 8 ? PART : PART == 8 ? 6 : PART == 9 ? 7 : 1, std::tuple<bool, int, unsigned, ll, ull, sz, float, double>>;
#elif PART < 14
template <class T, size_t C, size_t R> constexpr basic_matrix<T, C, R> mm(G &g) { basic_matrix<T, C, R> m{}; for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) m[i][j] = g.mid<T>(6); return m; }
#define MAT auto a = mm<T, N, M>(g); auto b = mm<T, N, M>(g);
OP(m_ctor, 0, true, auto dg = [&] { if constexpr (N == M) return basic_matrix<T, N, M>(g.fin<T>()); else return basic_matrix<T, N, M>(); }; auto d = dg(); basic_matrix<T, N, M> z{}; std::array<basic_vector<T, M>, 4> c{vf<T, M>(g), vf<T, M>(g), vf<T, M>(g), vf<T, M>(g)}; if constexpr (N == 2) return cat(d, z, basic_matrix<T, 2, M>(c[0], c[1])); else if constexpr (N == 3) return cat(d, z, basic_matrix<T, 3, M>(c[0], c[1], c[2])); else return cat(d, z, basic_matrix<T, 4, M>(c[0], c[1], c[2], c[3]));)
OP(m_resize, 0, true, MAT return cat(basic_matrix<T, 2, 2>(a), basic_matrix<T, 3, 3>(a), basic_matrix<T, 4, 4>(b), basic_matrix<T, 4, 2>(a));)
OP(m_convert, 0, true, MAT return cat(basic_matrix<double, N, M>(a), basic_matrix<float, N, M>(basic_matrix<float, N, M>(b)));)
OP(m_access, 0, true, MAT a[N - 1][0] = g.fin<T>(); b[0] = a[N - 1]; return cat(a.row(M - 1), b, a.data()[0], a.column_length(), a.size());)
OP(m_iter, 0, true, MAT std::array<T, N * M> r{}; size_t k = 0; for (auto &c : a) for (size_t j = 0; j < M; ++j) r[k++] = c[j]; for (auto &c : b) c = a[0]; return cat(r, b);)
OP(m_arith, 0, true, MAT T s = g.nz<T>(4); auto n = basic_matrix<T, N, M>(b); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) if (n[i][j] == 0) n[i][j] = 1; return cat(a + b, a - b, a * s, s * a, a / s, a + s, s - b, a / n, -a, matrixCompMult(a, b));)
OP(m_compound, 0, true, MAT T s = g.nz<T>(4); a = a + b; a = a * s + +b; auto c = a++; ++b; auto d = --a; return cat(a, b, c, d);)
OP(m_vec, 0, true, MAT auto v = vm<T, N>(g); auto w = vm<T, M>(g); return cat(a * v, w * b);)
OP(m_mul, 0, true, MAT auto t = transpose(b); return cat(t * a, a * t);)
OP(m_transpose, 0, true, MAT return flat(transpose(a));)
OP(m_outer, 0, true, auto v = vm<T, M>(g); auto w = vm<T, N>(g); return flat(outerProduct(v, w));)
OP(m_det, 0, N == M, MAT return flat(determinant(a));)
OP(m_inverse, 0, N == M, basic_matrix<T, N, M> a{}; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) a[i][j] = T((int)g.range(-64, 64)) / 32 + (i == j ? T(g.below(2) ? 9 : -9) : 0); return flat(inverse(a));)
OP(m_eq, 0, true, MAT if (g.below(2)) b = a; if (g.below(2)) b[N - 1][M - 1] += 1; return flat(std::array<bool, 2>{a == b, a != b});)
OP(m_swap, 0, true, MAT swap(a, b); auto r = cat(a, b); a.swap(b); return cat(r.a, a, b);)
OP(m_arrays, 0, true, MAT std::array<T, N * M> x = to_array(a); return cat(x, to_matrix<N, M>(x));)
OP(m_special, 0, (N == M && N == 3), auto v = vm<T, 3>(g); return cat(cross_matrix(v), diagonal_matrix(v));)
using all = std::tuple<m_ctor, m_resize, m_convert, m_access, m_iter, m_arith, m_compound, m_vec, m_mul, m_transpose, m_outer, m_det, m_inverse, m_eq, m_swap, m_arrays, m_special>;
using T0 = std::conditional_t<PART == 12, float, double>;
#else
// random programs: an interpreter over two vectors of each size, a matrix and a scalar, run by the compiler and again at run time
template <class T> struct mat_or { using type = basic_vector<T, 1>; }; template <class T> requires std::is_floating_point_v<T> struct mat_or<T> { using type = basic_matrix<T, 3, 3>; };
template <class T> struct World { basic_vector<T, 2> a{}, b{}; basic_vector<T, 3> p{}, q{}; basic_vector<T, 4> u{}, v{}; typename mat_or<T>::type m{}; T s{}; };
template <class T> constexpr auto state(const World<T> &w) { return cat(w.a, w.b, w.p, w.q, w.u, w.v, w.m, w.s); }
// bring values back into a range in which every further operation is defined
template <class T> constexpr T tame(T x) { if constexpr (std::is_floating_point_v<T>) return x > T(512) || x < T(-512) ? T(x / T(1048576)) : x; else return (T)(x % T(300)); }
template <class T> constexpr void settle(World<T> &w) { auto f = [](auto &v) { for (auto &x : v) { x = tame(x); if constexpr (std::is_floating_point_v<T>) x = tame(tame(x)); } }; f(w.a); f(w.b); f(w.p); f(w.q); f(w.u); f(w.v); if constexpr (std::is_floating_point_v<T>) for (auto &c : w.m) f(c); w.s = tame(w.s); }
template <class T, class V> constexpr void vstep(G &g, V &x, V &y, T &s) {
  constexpr size_t N = std::tuple_size_v<V>; constexpr bool F = std::is_floating_point_v<T>; auto one = [](auto r) { return V(r); };
  ull k = g.below(26);
#ifdef __clang__
  if (k == 11 || k == 15 || k == 19 || k == 25) k = 1; // comparisons, see entry()
#endif
  switch (k) {
    case 0: x = one(x + y); break; case 1: y = one(x - y); break; case 2: x = one(y * s); break; case 3: x = one(x * y); break; case 4: x += s; break; case 5: y -= x; break; case 6: x *= y; break;
    case 7: swap(x, y); break; case 8: x = y.shift((int)g.range(-5, 5)); break; case 9: x = one(min(x, y)); break; case 10: y = one(max(x, s)); break; case 11: x = one(mix(x, y, lessThan(x, y))); break; case 12: s = x.sum(); break;
    case 13: for (auto &e : x) e = T(e + s); break; case 14: x[g.below(N)] = y[g.below(N)]; break; case 15: if (x == y) ++x; else --y; break; case 16: s = x.max() - y.min(); break;
    case 17: { T d[N + 1] = {}; for (size_t i = 0; i < N; ++i) d[i] = x[i]; basic_view<true, T, N> w(d + 1); if constexpr (N > 1) w += y; x = V(w); break; }
    case 18: x = y.apply([&](T e) { return T(e - s); }); break; case 19: s = all(greaterThan(x, y)) ? s : T(g.range(0, 5)); break;
    case 20: { auto z = y; for (size_t i = 0; i < N; ++i) if (z[i] == 0) z[i] = T(3); x = one(x / z); break; }
    case 21: if constexpr (F) x = one(floor(y * T(1.75))); else x = one(x % V(T(7))); break; case 22: if constexpr (F) y = one(fract(x)); else y = one(x & y); break; case 23: if constexpr (F) x = one(round(x / T(3))); else x = one((x | y) ^ s); break;
    case 24: if constexpr (F) x = one(mod(x, T(2.5))); else x = one(x >> 2); break; default: if constexpr (F) y = one(roundEven(clamp(x, T(-7), T(9)))); else y = one(clamp(x, T(0), T(40)));
  }
}
template <class T> constexpr World<T> program(G g, int steps) {
  World<T> w; auto gen = [&](auto &v) { for (auto &x : v) x = g.tiny_int<T>(); if constexpr (std::is_floating_point_v<T>) v /= T(8); }; gen(w.a); gen(w.b); gen(w.p); gen(w.q); gen(w.u); gen(w.v); w.s = g.tiny_int<T>(); if constexpr (std::is_floating_point_v<T>) for (auto &c : w.m) gen(c);
  for (int i = 0; i < steps; ++i) {
    switch (g.below(std::is_floating_point_v<T> ? 6 : 4)) { case 0: vstep(g, w.a, w.b, w.s); break; case 1: vstep(g, w.p, w.q, w.s); break; case 2: vstep(g, w.u, w.v, w.s); break;
      case 3: switch (g.below(4)) { case 0: w.p = basic_vector<T, 3>(w.a, w.s); break; case 1: w.u = basic_vector<T, 4>(w.a, w.b); break; case 2: w.a = basic_vector<T, 2>(w.v); break; default: w.q = basic_vector<T, 3>(w.u); } break;
      default: if constexpr (std::is_floating_point_v<T>) switch (g.below(9)) { case 0: w.p = w.m * w.q; break; case 1: w.q = w.p * w.m; break; case 2: w.m = w.m * transpose(w.m); break; case 3: w.s = determinant(w.m); break; case 4: w.m[g.below(3)] = w.p; break; case 5: w.m = w.m + outerProduct(w.p, w.q); break; case 6: w.s = dot(w.p, w.q); break; case 7: w.q = w.m.row((int)g.below(3)); break; default: w.p = reflect(w.q, w.p); }
    }
    settle(w);
  }
  return w;
}
#define NPROG (NBATCH * 4)
OP(prog, 0, true, return state(program<T>(G{g.next()}, 3 + (int)M * 4));)
using all = std::tuple<prog>;
using T0 = std::tuple_element_t<PART - 14, std::tuple<double, int, unsigned, float, double>>;
#endif
} // namespace op
#ifdef __clang__
#define CLANGTAG ".clang"
#else
#define CLANGTAG ""
#endif
template <class O> constexpr ull seed_of(size_t n, size_t m, int b) { ull h = 1469598103934665603ull + VSEED * 0x9e3779b97f4a7c15ull; for (const char *p = O::name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull; return (h ^ (n * 64 + m * 8 + b)) * 1099511628211ull; }
template <class O, class T, size_t N, size_t M> constexpr auto one(ull s) { G g{s}; g.next(); return O::template run<T, N, M>(g); }
template <class O, class T, size_t N, size_t M> constexpr auto batch(ull s) { std::array<decltype(one<O, T, N, M>(0)), BATCH> r{}; for (int i = 0; i < BATCH; ++i) r[i] = one<O, T, N, M>(s + 1000003ull * i); return r; }
template <class O, class T, size_t N, size_t M, int B> inline constexpr bool accepted = requires { typename std::bool_constant<(batch<O, T, N, M>(seed_of<O>(N, M, B)), true)>; };
template <class O, class T, size_t N, size_t M, int B, int I> inline constexpr bool accepted1 = requires { typename std::bool_constant<(one<O, T, N, M>(seed_of<O>(N, M, B) + 1000003ull * I), true)>; };
std::string where(const char *o, const std::string &t, size_t n, size_t m) { return std::string(o) + " of " + t + " size " + std::to_string(n) + (m ? "x" + std::to_string(m) : ""); }
template <class E> bool agree(E a, E b, int tol, double scale) {
  if (a != a && b != b) return true;
  if constexpr (std::is_floating_point_v<E>) if (!tol && a == b) return std::signbit(a) == std::signbit(b); // exact operations agree in the sign of a zero too
  if (a == b) return true; if constexpr (std::is_floating_point_v<E>) { if (!tol || !std::isfinite(a) || !std::isfinite(b)) return false; E lo = std::min(a, b); for (int i = 0; i < tol && i < 8; ++i) { lo = std::nextafter(lo, std::max(a, b)); if (lo == std::max(a, b)) return true; } return tol > 8 && std::fabs((double)a - (double)b) <= tol * scale * std::numeric_limits<E>::epsilon(); } return false;
}
template <class O, class T, size_t N, size_t M, int B> void entry(Case &c) {
  int i = (int)c.below(BATCH); ull seed = seed_of<O>(N, M, B) + 1000003ull * i; NOTE(c, where(O::name, tn<T>(), N, M) << ", argument seed " << seed);
  if constexpr (!accepted<O, T, N, M, B>) {
#ifdef __clang__
    // clang takes the standard comparison functions for not constexpr, so what is accepted is judged with g++
    c.label("not accepted by clang"); return;
#endif
    [&]<int... I>(std::integer_sequence<int, I...>) { bool ok[] = {accepted1<O, T, N, M, B, I>...}; CK(ok[i], where(O::name, tn<T>(), N, M) << " is not accepted in a constant expression"); }(std::make_integer_sequence<int, BATCH>());
  } else {
    static constexpr auto table = batch<O, T, N, M>(seed_of<O>(N, M, B)); volatile ull vs = seed; auto rt = one<O, T, N, M>(vs); auto &ct = table[i]; double sc = 0; bool distinct = false;
    for (auto x : rt.a) { if (std::isfinite((double)x)) sc = std::max(sc, std::fabs((double)x)); distinct |= x != rt.a[0]; }
    for (size_t k = 0; k < rt.a.size(); ++k) CK(agree(ct.a[k], rt.a[k], O::tol, sc), where(O::name, tn<T>(), N, M) << ": value " << k << " is " << show(ct.a[k]) << " when evaluated by the compiler and " << show(rt.a[k]) << " at run time");
    c.nontrivial(distinct || rt.a.size() <= 2);
  }
  c.label(O::name);
}
using Fn = void (*)(Case &);
template <class O, class T, size_t N, size_t M> void add_op(std::vector<Fn> &v) { if constexpr (O::template ok<T, N, M>) { [&]<int... B>(std::integer_sequence<int, B...>) { (v.push_back(entry<O, T, N, M, B>), ...); }(std::make_integer_sequence<int, (PART >= 14 ? NBATCH * 2 : NBATCH)>()); } }
template <class T> const std::vector<Fn> &entries() {
  static const std::vector<Fn> v = [] { std::vector<Fn> r; [&]<class... O>(std::tuple<O...> *) { (([&] {
#if PART < 11
    add_op<O, T, 1, 0>(r); add_op<O, T, 2, 0>(r); add_op<O, T, 3, 0>(r); add_op<O, T, 4, 0>(r);
#elif PART < 14
    add_op<O, T, 2, 2>(r); add_op<O, T, 3, 3>(r); add_op<O, T, 4, 4>(r); add_op<O, T, 2, 3>(r); add_op<O, T, 3, 4>(r); add_op<O, T, 4, 2>(r); add_op<O, T, 4, 3>(r); add_op<O, T, 3, 2>(r); add_op<O, T, 2, 4>(r);
#else
    add_op<O, T, 1, 1>(r); add_op<O, T, 1, 2>(r); add_op<O, T, 1, 3>(r); add_op<O, T, 1, 4>(r); add_op<O, T, 1, 5>(r);
#endif
  }()), ...); }((op::all *)nullptr); return r; }();
  return v;
}
void ops(Case &c) { auto &v = entries<op::T0>(); v[c.below(v.size())](c); }
PBT_PROP(((const char *)[] { static std::string s = std::string("C13.") + (PART < 11 ? "vector." : PART < 14 ? "matrix." : "program.") + tn<op::T0>() + CLANGTAG; return s.c_str(); }()), 1, ops);
}
