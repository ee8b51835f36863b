// C14: geometric functions. PART 0..3: element type pairs (float,float) (double,double) (float,double) (double,float); PART 4: innerProduct.
#include "kinds.hpp"
namespace {
using namespace dsga; using LD = long double;
template <class T> std::array<T, 4> dummy{};
#if PART < 4
using T1 = std::conditional_t<PART == 0 || PART == 2, float, double>; using T2 = std::conditional_t<PART == 0 || PART == 3, float, double>; using X = std::common_type_t<T1, T2>;
constexpr bool SAME = std::is_same_v<T1, T2>;
constexpr LD EPS = std::numeric_limits<X>::epsilon(), TINY = std::numeric_limits<X>::denorm_min(), BIG = std::numeric_limits<X>::max(), NORM = std::numeric_limits<X>::min();
// component lists: small integers, reals, a shared exponent anywhere in the range where squares are representable, mixed exponents, arbitrary
template <class T, size_t N> std::array<T, N> gen_vec(Case &c, int mode) {
  std::array<T, N> a; int lim = sizeof(X) == 4 || sizeof(T) == 4 ? 60 : 500; int e = (int)c.range(-lim, lim);
  for (auto &x : a) switch (mode) { case 0: x = T(c.range(-9, 9)); break; case 1: x = T(c.range(-1000000, 1000000)) / T(997); break; case 2: x = std::ldexp(T(c.range(-1000000, 1000000)) / T(1000003), e); break; case 3: x = std::ldexp(T(c.range(-1000000, 1000000)) / T(1000003), (int)c.range(-20, 20)); break; case 4: x = gen_finite<T>(c); break; default: x = gen_any<T>(c); }
  if (c.chance(1, 8)) a[c.below(N)] = T(0); return a;
}
// unit vectors: exact ones (axes, 3-4-5 style quadruples over powers of two are not exact; axes and halves are) or rounded ones
template <class T, size_t N> std::array<T, N> gen_unit(Case &c) {
  std::array<T, N> a{}; if (c.chance(1, 4)) { a[c.below(N)] = c.coin() ? T(1) : T(-1); return a; } if (N == 4 && c.chance(1, 4)) { for (auto &x : a) x = c.coin() ? T(0.5) : T(-0.5); return a; }
  std::array<LD, N> v; LD s = 0; do { s = 0; for (auto &x : v) { x = (LD)c.range(-1000, 1000) / 1000; s += x * x; } } while (s < 1e-6L); s = std::sqrt(s); for (size_t i = 0; i < N; ++i) a[i] = T(v[i] / s); return a;
}
template <size_t N> LD sumsq(const auto &m) { LD s = 0; for (size_t i = 0; i < N; ++i) s += (LD)m[i] * (LD)m[i]; return s; }
bool near(LD got, LD want, LD lim) { return std::fabs(got - want) <= lim; }
std::string about(LD x) { return show((double)x); }

template <size_t N> void dot_n(Case &c) {
  int mode = (int)c.below(5); auto a = gen_vec<T1, N>(c, mode); auto b = gen_vec<T2, N>(c, mode); NOTE(c, "dot of " << show(a) << " and " << show(b));
  with_pair<T1, T2, N, N>(c, a, b, [&](auto &x, const auto &mx, auto &y, const auto &my) {
    auto r = dot(std::as_const(x), y); auto q = innerProduct(x, std::as_const(y)); constexpr bool ty = std::is_same_v<decltype(r), X> && std::is_same_v<decltype(q), X>; CK(ty, "type of dot"); LD s = 0, ab = 0; for (size_t i = 0; i < N; ++i) { LD t = (LD)mx[i] * (LD)my[i]; s += t; ab += std::fabs(t); }
    if (ab < BIG / 2) { LD lim = mode == 0 ? 0 : ab * EPS * N + TINY * N * 2; CK(near(r, s, lim), "dot is " << show(r) << ", expected about " << about(s)); CK(near(q, s, lim), "innerProduct is " << show(q) << ", expected about " << about(s)); }
    if (ab < BIG / 2) CK(near(dot(y, x), s, ab * EPS * N + TINY * N * 2), "dot with the operands exchanged");
  }); c.nontrivial(N > 1 && all_distinct(a) && all_distinct(b));
}
template <size_t N> void length_n(Case &c) {
  int mode = (int)c.below(4); auto a = gen_vec<T1, N>(c, mode); auto b = gen_vec<T2, N>(c, mode == 0 ? 0 : (int)c.below(4)); if (c.chance(1, 6)) for (size_t i = 0; i < N; ++i) b[i] = T2(a[i]); NOTE(c, "length, distance, normalize of " << show(a) << " and " << show(b));
  constexpr LD E1 = std::numeric_limits<T1>::epsilon(), N1 = std::numeric_limits<T1>::min(), B1 = std::numeric_limits<T1>::max(); bool non = false;
  with_pair<T1, T2, N, N>(c, a, b, [&](auto &x, const auto &mx, auto &y, const auto &my) {
    auto l = length(std::as_const(x)); constexpr bool ty = std::is_same_v<decltype(l), T1>; CK(ty, "type of length"); LD s = sumsq<N>(mx), w = std::sqrt(s); bool zero = s == 0; non = !zero && N > 1;
    if (N == 1) CK(l == std::fabs(mx[0]), "length of one component"); else if (zero) CK(l == 0, "length of the zero vector is " << show(l)); else if (s > N1 * 8 && s < B1 / 2) { CK(near(l, w, w * E1 * (N + 3)), "length is " << show(l) << ", expected about " << about(w)); if (mode == 0 && w == std::floor(w)) CK(l == w, "length of an integer vector"); }
    CK(length(T1(mx[0])) == std::fabs(mx[0]), "length of a scalar");
    auto d = distance(std::as_const(x), y); constexpr bool tyd = std::is_same_v<decltype(d), X>; CK(tyd, "type of distance"); LD ds = 0; for (size_t i = 0; i < N; ++i) { LD t = (LD)(X)mx[i] - (LD)(X)my[i]; ds += t * t; } LD dw = std::sqrt(ds);
    if (ds == 0) CK(d == 0, "distance of equal points is " << show(d)); else if (N == 1 ? (dw > NORM && dw < BIG / 2) : (ds > NORM * 8 && ds < BIG / 2)) { CK(near(d, dw, dw * EPS * (N + 5)), "distance is " << show(d) << ", expected about " << about(dw)); CK(near(distance(y, x), dw, dw * EPS * (N + 5)), "distance with the operands exchanged"); }
    { LD sd = std::fabs((LD)(X)mx[0] - (LD)(X)my[0]); if (sd < BIG / 2) CK(near(distance(T1(mx[0]), T2(my[0])), sd, sd * EPS + TINY), "distance of scalars"); }
    if constexpr (N > 1) {
      auto n = normalize(std::as_const(x)); constexpr bool tn = std::is_same_v<decltype(n), basic_vector<T1, N>>; CK(tn, "type of normalize");
      if (zero) { for (size_t i = 0; i < N; ++i) CK(n[i] != n[i], "normalize of the zero vector: component " << i << " is " << show(n[i])); }
      else if (s > N1 * 8 && s < B1 / 2) { LD u = 0; for (size_t i = 0; i < N; ++i) { LD e = (LD)mx[i] / w; CK(near(n[i], e, std::fabs(e) * E1 * (N + 5) + std::numeric_limits<T1>::denorm_min()), "normalize: component " << i << " is " << show(n[i]) << ", expected about " << about(e)); CK(e == 0 || std::fabs(e) < 1e-30L || std::signbit(n[i]) == std::signbit(mx[i]), "normalize changed the direction"); u += (LD)n[i] * n[i]; } CK(near(std::sqrt(u), 1, E1 * (N + 6)), "normalize: length of the result is " << about(std::sqrt(u))); }
    }
    for (size_t i = 0; i < N; ++i) CK(same(T1(x[i]), mx[i]) && same(T2(y[i]), my[i]), "an argument changed");
  }); c.nontrivial(non);
}
template <class F> void all_kinds(int k1, int k2, F &&f) { [&]<size_t... K>(std::index_sequence<K...>) { ((K == (size_t)(k1 * 9 + k2) ? (void)f.template operator()<(int)(K / 9), (int)(K % 9)>() : void()), ...); }(std::make_index_sequence<81>{}); }
void cross_(Case &c) {
  int mode = (int)c.below(5); auto a = gen_vec<T1, 3>(c, mode); auto b = gen_vec<T2, 3>(c, mode == 4 ? 4 : mode); int k1 = (int)c.below(9), k2 = (int)c.below(9); if (c.chance(1, 10)) for (int i = 0; i < 3; ++i) b[i] = T2(a[i]); NOTE(c, "cross of " << show(a) << " (" << kind_name(k1) << ") and " << show(b) << " (" << kind_name(k2) << ")");
  all_kinds(k1, k2, [&]<int A, int B>() {
    Opnd<A, T1, 3> x(a); Opnd<B, T2, 3> y(b); auto r = cross(std::as_const(x.get()), y.get()); auto q = cross(y.get(), x.get()); constexpr bool ty = std::is_same_v<decltype(r), basic_vector<X, 3>>; CK(ty, "type of cross"); if constexpr (ty) {
      auto &u = x.m; auto &v = y.m; bool all = true; LD o1 = 0, o2 = 0, s1 = 0, s2 = 0;
      for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; LD p = (LD)u[j] * v[k], m = (LD)u[k] * v[j], ab = std::fabs(p) + std::fabs(m); if (!(ab < BIG / 2)) { all = false; continue; } LD lim = mode == 0 ? 0 : ab * EPS * 2 + TINY * 4; CK(near(r[i], p - m, lim), "cross: component " << i << " is " << show(r[i]) << ", expected about " << about(p - m)); CK(r[i] == -q[i], "cross(b, a) is not -cross(a, b): component " << i); o1 += (LD)r[i] * u[i]; s1 += lim * std::fabs((LD)u[i]); o2 += (LD)r[i] * v[i]; s2 += lim * std::fabs((LD)v[i]); }
      if (all) CK(std::fabs(o1) <= s1 * 2 + TINY && std::fabs(o2) <= s2 * 2 + TINY, "cross is not orthogonal to its arguments"); }
    CK(x.intact() && y.intact(), "an argument changed");
  }); c.nontrivial(all_distinct(a) && all_distinct(b));
}
#define BYN(F) void F(Case &c) { switch (c.below(4)) { case 0: F##_n<1>(c); break; case 1: F##_n<2>(c); break; case 2: F##_n<3>(c); break; default: F##_n<4>(c); } }
#define BYN2(F) void F(Case &c) { switch (c.below(3)) { case 0: F##_n<2>(c); break; case 1: F##_n<3>(c); break; default: F##_n<4>(c); } }
namespace d { BYN(dot) } namespace l { BYN(length) }
#define NM(X) ((const char *)[] { static std::string s = std::string("C14.") + X + "." + tname<T1>() + "." + tname<T2>(); return s.c_str(); }())
PBT_PROP(NM("dot"), 1, d::dot); PBT_PROP(NM("length_distance_normalize"), 1.5, l::length); PBT_PROP(NM("cross"), 1, cross_);
#if PART < 2
using T = T1;
template <size_t N> void faceforward_n(Case &c) {
  auto n = gen_vec<T, N>(c, 5); int mode = (int)c.below(4); auto i = gen_vec<T, N>(c, mode), r = gen_vec<T, N>(c, mode); if (c.chance(1, 6)) { for (size_t k = 0; k < N; ++k) r[k] = 0; r[0] = i[N - 1]; r[N - 1] = -i[0]; if (N > 2) r[1] = 0; if (N == 3 && 0) r[1] = 1; } NOTE(c, "faceforward of " << show(n) << ", " << show(i) << ", " << show(r)); bool decided = false;
  hk<1400 + N + PART * 8, 6>(c, [&](auto &on, auto &oi, auto &orf) {
    auto g = faceforward(on.get(), oi.get(), orf.get()); constexpr bool ty = std::is_same_v<decltype(g), basic_vector<T, N>>; CK(ty, "type of faceforward"); LD s = 0, ab = 0; for (size_t k = 0; k < N; ++k) { LD t = (LD)oi.m[k] * orf.m[k]; s += t; ab += std::fabs(t); } LD lim = mode == 0 ? 0 : ab * EPS * N + TINY * N; decided = std::fabs(s) > lim || lim == 0;
    bool pos = true, neg = true; for (size_t k = 0; k < N; ++k) { T z = on.m[k]; pos &= numeq(g[k], z) && (z != z || std::signbit(g[k]) == std::signbit(z)); neg &= numeq(g[k], -z) && (z != z || std::signbit(g[k]) == std::signbit(-z)); }
    CK(pos || neg, "faceforward returned neither its first argument nor its negation"); if (decided) CK(s < 0 ? pos : neg, "faceforward returned the " << (pos ? "first argument" : "negation") << " although dot(nref, i) is " << about(s));
  }, n, i, r); c.nontrivial(decided && has_nonzero(n));
}
template <size_t N> void reflect_n(Case &c) {
  bool unit = c.coin(); auto i = gen_vec<T, N>(c, (int)c.below(4) % 4); auto n = unit ? gen_unit<T, N>(c) : gen_vec<T, N>(c, (int)c.below(2)); NOTE(c, "reflect of " << show(i) << " at " << show(n));
  hk<1500 + N + PART * 8, 6>(c, [&](auto &oi, auto &on) {
    auto g = reflect(oi.get(), on.get()); constexpr bool ty = std::is_same_v<decltype(g), basic_vector<T, N>>; CK(ty, "type of reflect"); LD s = 0, ab = 0; for (size_t k = 0; k < N; ++k) { LD t = (LD)oi.m[k] * on.m[k]; s += t; ab += std::fabs(t); }
    LD l1 = 0, l2 = 0, dl = 0; bool big = false; for (size_t k = 0; k < N; ++k) { LD w = oi.m[k] - 2 * s * on.m[k], lim = EPS * (N + 4) * (std::fabs((LD)oi.m[k]) + 2 * ab * std::fabs((LD)on.m[k])) + TINY * (4 * N + 4) * (1 + std::fabs((LD)on.m[k])); if (!(2 * ab * std::fabs((LD)on.m[k]) < BIG / 4) || !(ab < BIG / 8)) { big = true; continue; } CK(near(g[k], w, lim), "reflect: component " << k << " is " << show(g[k]) << ", expected about " << about(w)); l1 += (LD)g[k] * g[k]; l2 += (LD)oi.m[k] * oi.m[k]; dl += lim * lim; }
    LD nn = sumsq<N>(on.m); if (!big && std::fabs(nn - 1) < 8 * EPS) CK(near(std::sqrt(l1), std::sqrt(l2), std::sqrt(dl) + std::sqrt(l2) * EPS * 24), "reflect at a unit normal changed the length from " << about(std::sqrt(l2)) << " to " << about(std::sqrt(l1)));
  }, i, n); c.nontrivial(has_nonzero(i) && has_nonzero(n));
}
template <size_t N> void refract_n(Case &c) {
  bool unit = c.chance(3, 4); auto i = unit ? gen_unit<T, N>(c) : gen_vec<T, N>(c, 0); auto n = unit ? gen_unit<T, N>(c) : gen_vec<T, N>(c, 0); T eta; switch (c.below(5)) { case 0: eta = T(c.range(1, 100)) / T(100); break; case 1: eta = T(c.range(100, 300)) / T(100); break; case 2: eta = T(c.range(0, 4)); break; case 3: eta = T(c.range(-200, 200)) / T(64); break; default: eta = std::ldexp(T(1), (int)c.range(-6, 3)); }
  bool exact = c.chance(1, 5); if (exact) { unit = false; for (auto &x : i) x = T(c.range(-4, 4)) / T(2); for (auto &x : n) x = T(c.range(-4, 4)) / T(2); eta = c.chance(2, 3) ? T(c.coin() ? 1 : -1) : T(c.coin() ? 2 : 0.5); if (c.coin()) { for (auto &x : i) x = 0; for (auto &x : n) x = 0; size_t p = c.below(N), q = c.below(N); i[p] = T(c.coin() ? 1 : -1); n[q] = T(c.coin() ? 1 : -1); } }   // every step of the formula is exact, so the sign of k is
  NOTE(c, "refract of " << show(i) << " at " << show(n) << " eta " << show(eta)); const char *cls = "";
  hk<1600 + N + PART * 8, 6>(c, [&](auto &oi, auto &on) {
    auto g = refract(oi.get(), on.get(), eta); constexpr bool ty = std::is_same_v<decltype(g), basic_vector<T, N>>; CK(ty, "type of refract"); LD e = eta, d = 0, ab = 0; for (size_t k = 0; k < N; ++k) { LD t = (LD)oi.m[k] * on.m[k]; d += t; ab += std::fabs(t); }
    LD k = 1 - e * e * (1 - d * d), dk = exact && oi.m == i && on.m == n ? 0 : EPS * (2 * N + 8) * (1 + e * e * (1 + ab * ab)); bool allzero = true; for (size_t q = 0; q < N; ++q) allzero &= g[q] == 0;
    if (k < -dk) { cls = "total internal reflection"; CK(allzero, "refract under total internal reflection is not zero"); return; } cls = k < dk || k == 0 ? "limit angle" : "refraction"; if (k < dk && allzero) return;
    LD sk = k > 0 ? std::sqrt(k) : 0, dsk = k > dk ? std::min(dk / sk * 2, std::sqrt(2 * dk)) : std::sqrt(2 * dk); LD coef = e * d + sk, dcoef = EPS * (N + 4) * (std::fabs(e) * ab + sk) + dsk * 2; LD tt = 0, rr = 0, err = 0, dotn = 0;
    for (size_t q = 0; q < N; ++q) { LD w = e * oi.m[q] - coef * on.m[q], lim = EPS * 4 * (std::fabs(e * oi.m[q]) + std::fabs(coef * on.m[q])) + dcoef * std::fabs((LD)on.m[q]); CK(near(g[q], w, lim), "refract: component " << q << " is " << show(g[q]) << ", expected about " << about(w)); LD t = oi.m[q] - d * on.m[q]; tt += (e * t) * (e * t); rr += (LD)g[q] * g[q]; dotn += (LD)g[q] * on.m[q]; err += lim; }
    if (unit && k > 100 * dk && std::fabs(sumsq<N>(on.m) - 1) < 8 * EPS && std::fabs(sumsq<N>(oi.m) - 1) < 8 * EPS) { CK(near(std::sqrt(rr), 1, err + 100 * EPS * (1 + e * e)), "refract: the result has length " << about(std::sqrt(rr))); LD st = 0; for (size_t q = 0; q < N; ++q) { LD t = (LD)g[q] - dotn * on.m[q]; st += t * t; } CK(near(std::sqrt(st), std::sqrt(tt), err * 2 + 100 * EPS * (1 + e * e)), "refract violates Snell's law: sin is " << about(std::sqrt(st)) << ", expected " << about(std::sqrt(tt))); CK(dotn < 0, "refract points back to the side it came from"); }
  }, i, n); c.label(cls); c.nontrivial(unit && all_distinct(i) && eta != 1);
}
namespace ff { BYN2(faceforward) } namespace rl { BYN2(reflect) } namespace rf { BYN2(refract) }
PBT_PROP(NM("faceforward"), 1, ff::faceforward); PBT_PROP(NM("reflect"), 1, rl::reflect); PBT_PROP(NM("refract"), 1, rf::refract);
#endif
#else
template <class A, class B, size_t N> void inner_n(Case &c) {
  using X = std::common_type_t<A, B>; std::array<A, N> a; std::array<B, N> b; bool wide = c.coin() && (std::is_unsigned_v<X>); for (auto &x : a) x = wide ? gen_any<A>(c) : gen_small<A>(c, 1000); for (auto &x : b) x = wide ? gen_any<B>(c) : gen_small<B>(c, 1000); NOTE(c, "innerProduct of " << tname<A>() << " " << show(a) << " and " << tname<B>() << " " << show(b));
  with_pair<A, B, N, N>(c, a, b, [&](auto &x, const auto &mx, auto &y, const auto &my) {
    auto r = innerProduct(std::as_const(x), y); auto q = innerProduct(y, std::as_const(x)); constexpr bool ty = std::is_same_v<decltype(r), X> && std::is_same_v<decltype(q), X>; CK(ty, "type of innerProduct");
    if constexpr (std::is_integral_v<X>) { ull s = 0; for (size_t i = 0; i < N; ++i) s += (ull)(X)mx[i] * (ull)(X)my[i]; CK(r == (X)s && q == (X)s, "innerProduct is " << show(r) << ", expected " << show((X)s)); }
    else { LD s = 0, ab = 0; for (size_t i = 0; i < N; ++i) { LD t = (LD)(X)mx[i] * (LD)(X)my[i]; s += t; ab += std::fabs(t); } LD lim = ab * std::numeric_limits<X>::epsilon() * N + std::numeric_limits<X>::denorm_min() * N * 2; if (ab < std::numeric_limits<X>::max() / 2) CK(std::fabs(r - s) <= lim && std::fabs(q - s) <= lim, "innerProduct is " << show(r) << ", expected about " << show((double)s)); }
  }); c.nontrivial(N > 1 && all_distinct(a) && all_distinct(b));
}
template <class A, class B> void inner(Case &c) { switch (c.below(4)) { case 0: inner_n<A, B, 1>(c); break; case 1: inner_n<A, B, 2>(c); break; case 2: inner_n<A, B, 3>(c); break; default: inner_n<A, B, 4>(c); } }
#define P(A, B) PBT_PROP("C14.innerProduct." #A "." #B, 0.5, (inner<A, B>));
P(int, int) P(unsigned, unsigned) P(ll, ll) P(ull, ull) P(sz, sz) P(int, double) P(float, int) P(unsigned, int) P(ll, unsigned) P(float, ull) P(double, float)
template <class A, size_t N, class B, size_t M> constexpr bool can_dot = requires (const basic_vector<A, N> &a, const basic_vector<B, M> &b) { dot(a, b); };
template <class A, size_t N, class B, size_t M> constexpr bool can_inner = requires (const basic_vector<A, N> &a, const basic_vector<B, M> &b) { innerProduct(a, b); };
void table(Case &c) { [&]<size_t... S>(std::index_sequence<S...>) { ([&] { constexpr size_t A = S % 4 + 1, B = S / 4 + 1; constexpr bool d = can_dot<float, A, double, B>, i = can_inner<int, A, float, B>; CK(d == (A == B) && i == (A == B), "dot or innerProduct of lengths " << A << " and " << B << (d || i ? " compiles" : " does not compile")); }(), ...); }(std::make_index_sequence<16>{}); c.nontrivial(); }
PBT_PROP("C14.matching_sizes_only", 0.0005, table);
#endif
}
