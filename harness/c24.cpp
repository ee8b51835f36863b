// C24: add-on headers in examples/. PART 0: tolerances, 1: curves, angles, geometry
#include "kinds.hpp"
#include <compare>
#include <stdexcept>
namespace x_ {
template <class T> const char *tn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, unsigned> ? "unsigned" : std::is_same_v<T, ll> ? "long long" : std::is_same_v<T, ull> ? "unsigned long long" : std::is_same_v<T, sz> ? "size_t" : std::is_same_v<T, float> ? "float" : "double"; }
template <bool B = false, class F> void each_type(Case &c, F f) { switch (c.below(B ? 7 : 6)) { case 0: f.template operator()<int>(); break; case 1: f.template operator()<float>(); break; case 2: f.template operator()<double>(); break; case 3: f.template operator()<unsigned>(); break; case 4: f.template operator()<ll>(); break; case 5: f.template operator()<ull>(); break; default: if constexpr (B) f.template operator()<bool>(); } }
template <class F> void each_size(Case &c, F f) { switch (c.below(4)) { case 0: f.template operator()<1>(); break; case 1: f.template operator()<2>(); break; case 2: f.template operator()<3>(); break; default: f.template operator()<4>(); } }
}
#if PART == 0
#include "tolerance.hxx"
using namespace dsga; using namespace x_;
namespace {
// |x - y| and the comparison with a tolerance, exactly for integers and in the type itself for floats
template <class T> bool within(T x, T y, T tol, bool diff) { if constexpr (std::is_integral_v<T>) { __int128 d = diff ? (__int128)x - (__int128)y : (__int128)x; return (d < 0 ? -d : d) <= (__int128)tol; } else { T d = diff ? x - y : x; return std::fabs(d) <= tol; } }
// known findings: integers whose difference is not representable have a sub-property of their own; tolerances of vectors with unsigned elements, and within_box of one-component vectors with a vector tolerance, do not compile (probes)
template <class T> bool lossy(T x, T y) { if constexpr (std::is_integral_v<T>) { if constexpr (std::is_signed_v<T>) { T r; return __builtin_sub_overflow(x, y, &r) || r == std::numeric_limits<T>::min(); } else return x < y; } else return false; }
template <class T> T value(Case &c) { T v = c.coin() ? gen_small<T>(c, 6) : gen_any<T>(c); if constexpr (std::is_signed_v<T> && std::is_integral_v<T>) if (v == std::numeric_limits<T>::min()) v = 1; return v; }
template <class T> T close_to(Case &c, T x) { if constexpr (std::is_integral_v<T>) { if (c.below(4) == 0) return value<T>(c); ull d = c.below(7); T r = T(c.coin() ? (ull)x + d : (ull)x - d); if constexpr (std::is_signed_v<T>) if (r == std::numeric_limits<T>::min()) return x; return r; } else return c.coin() ? x + (T)c.range(-6, 6) / 2 : value<T>(c); }
template <class T, class U> U tolerance(Case &c) { if constexpr (std::is_integral_v<U>) { if (c.below(5) == 0) return std::numeric_limits<U>::max(); return (U)c.below(7); } else { switch (c.below(6)) { case 0: return U(INFINITY); case 1: return U(0); case 2: return gen_any<U>(c) * U(0) == U(0) ? std::fabs(U(gen_any<U>(c))) : U(2); default: return U(c.below(14)) / 2; } } }
template <class T, class U, size_t N> void check(Case &c) {
  std::array<T, N> x, y; for (size_t i = 0; i < N; ++i) { x[i] = value<T>(c); y[i] = close_to(c, x[i]); if (lossy(x[i], y[i])) std::swap(x[i], y[i]); if (lossy(x[i], y[i])) x[i] = T(4), y[i] = T(c.below(5)); } std::array<U, N> tol; for (auto &t : tol) { t = tolerance<T, U>(c); if (!(t >= U(0))) t = U(1); }
  NOTE(c, tn<T>() << " " << show(x) << " and " << show(y) << ", tolerance " << tn<U>() << " " << show(tol)); std::array<bool, 5> seen{}; int yes = 0;
  auto bad = [&](const char *n, bool got, bool want) { if (got != want) CK(false, n << " is " << got << ", expected " << want); yes += got; };
  bad("within_tolerance(scalar)", within_tolerance(x[0], tol[0]), within<T>(x[0], T(0), (T)tol[0], false)); bad("within_box(scalar)", within_box(x[0], y[0], tol[0]), within<T>(x[0], y[0], (T)tol[0], true)); bad("within_distance(scalar)", within_distance(x[0], y[0], tol[0]), within<T>(x[0], y[0], (T)tol[0], true));
  basic_vector<U, N> tv{}; for (size_t i = 0; i < N; ++i) tv[i] = tol[i]; basic_vector<U, 1> t1(tol[0]); std::array<U, N> td = tol; view_vector<U, N> tw(tv); basic_view<false, U, N> tr(td.data());
  if constexpr (std::is_unsigned_v<T>) { c.nontrivial(yes > 0 && N == 1); return; } else
  with_pair(c, x, y, [&](const auto &a, const auto &ma, const auto &b, const auto &mb) {
    for (size_t i = 0; i < N; ++i) if (lossy<T>(ma[i], mb[i])) return;
    bool w1 = true, wn = true, b1 = true, bn = true; long double d2 = 0; bool fin = true; for (size_t i = 0; i < N; ++i) { T p = ma[i], q = mb[i]; w1 &= within<T>(p, 0, (T)tol[0], false); wn &= within<T>(p, 0, (T)tol[i], false); b1 &= within<T>(p, q, (T)tol[0], true); bn &= within<T>(p, q, (T)tol[i], true); long double e = (long double)p - (long double)q; d2 += e * e; fin = fin && std::fabs((long double)p) < 1e15L && std::fabs((long double)q) < 1e15L; }
    bad("within_tolerance(vector, scalar)", within_tolerance(a, tol[0]), w1); bad("within_tolerance(vector, vector)", within_tolerance(a, tv), wn); bad("within_tolerance(vector, view)", within_tolerance(a, tw) && within_tolerance(a, tr), wn); bad("within_tolerance(vector, one)", within_tolerance(a, t1), w1);
    bad("within_box(vector, vector, scalar)", within_box(a, b, tol[0]), b1); if constexpr (N > 1) { bad("within_box(vector, vector, vector)", within_box(a, b, tv), bn); bad("within_box(vector, vector, one)", within_box(a, b, t1), b1); }
    if constexpr (std::is_floating_point_v<T>) if (fin) { long double d = std::sqrt(d2), t = (long double)(T)tol[0], eps = 8 * (long double)std::numeric_limits<T>::epsilon(); if (std::fabs(d - t) > eps * d || d == t) { bool w = d <= t; if ((d != t || N == 1 || d < 1e6L) && (d == 0 || d > 1e-10L)) { bad("within_distance(vector, vector, scalar)", within_distance(a, b, tol[0]), w); bad("within_distance(vector, vector, one)", within_distance(a, b, t1), w); } } }
  });
  c.nontrivial(yes > 0 && N > 1);
}
template <class T, class U> void negative(Case &c) { // a negative tolerance is stopped
  if constexpr (std::is_signed_v<U> && std::is_signed_v<T>) each_size(c, [&]<size_t N>() { if constexpr (N > 1) { basic_vector<T, N> a{}, b{}; basic_vector<U, N> t{}; sz k = c.below(N); U neg = c.coin() ? U(-1) : -U(1 + c.below(5)); for (size_t i = 0; i < N; ++i) { a[i] = gen_small<T>(c, 3); b[i] = gen_small<T>(c, 3); t[i] = i == k ? neg : U(100); } int how = (int)c.below(6); NOTE(c, tn<T>() << ", tolerance " << tn<U>() << " " << show(neg) << " at " << k << ", form " << how); bool r = false;
    bool st = aborts([&] { switch (how) { case 0: r = within_tolerance(a, t); break; case 1: r = within_box(a, b, t); break; case 2: r = within_tolerance(a, neg); break; case 3: r = within_tolerance(T(a[0]), neg); break; case 4: r = within_box(T(a[0]), T(b[0]), neg); break; default: r = within_box(a, b, neg); } }); CK(st, "a negative tolerance is not stopped (result " << r << ")"); c.nontrivial(); } });
}
template <class F> void combos(Case &c, F go) { switch (c.below(11)) {
#define P_(k, T, U) case k: go.template operator()<T, U>(); break;
  P_(0, int, int) P_(1, float, float) P_(2, double, double) P_(3, unsigned, unsigned) P_(4, ll, ll) P_(5, ull, ull) P_(6, ll, int) P_(7, double, float) P_(8, double, int) P_(9, float, int) P_(10, ull, unsigned) } }
void checks(Case &c) { combos(c, [&]<class T, class U>() { each_size(c, [&]<size_t N>() { check<T, U, N>(c); }); }); }
void negatives(Case &c) { combos(c, [&]<class T, class U>() { negative<T, U>(c); }); }
// the pairs kept out of the others
void wrapping(Case &c) {
  auto go = [&]<class T>() { T x, y; if constexpr (std::is_signed_v<T>) { x = std::numeric_limits<T>::max() - (T)c.below(4); y = -3 - (T)c.below(4); } else { x = (T)c.below(4); y = x + 1 + (T)c.below(4); } if (std::is_signed_v<T> && c.coin()) std::swap(x, y); T tol = (T)c.below(10); NOTE(c, tn<T>() << " " << show(x) << " and " << show(y) << ", tolerance " << show(tol));
    bool w = within<T>(x, y, tol, true), b = false, d = false; bool st = aborts([&] { b = within_box(x, y, tol); d = within_distance(x, y, tol); }); CK(!st && b == w && d == w, "the difference of two integers wraps"); c.nontrivial(); };
  switch (c.below(4)) { case 0: go.template operator()<int>(); break; case 1: go.template operator()<ll>(); break; case 2: go.template operator()<unsigned>(); break; default: go.template operator()<ull>(); }
}
PBT_PROP("C24.wrapping_difference", 0.2, wrapping);
PBT_PROP("C24.tolerance", 3, checks); PBT_PROP("C24.negative_tolerance", 0.5, negatives);
}
#endif
#if PART == 1
#include "bezier.hxx"
#include "angle.hxx"
#include "basic.hxx"
using namespace dsga; using namespace x_;
namespace {
using ld = long double; template <class T> ld eps() { return std::numeric_limits<T>::epsilon(); } using V3 = std::array<ld, 3>;
V3 operator-(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; } V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; } V3 operator*(ld s, V3 a) { return {s * a[0], s * a[1], s * a[2]}; } ld dt(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; } V3 cr(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; } ld len(V3 a) { return std::sqrt(dt(a, a)); }
template <class T> T coord(Case &c) { switch (c.below(4)) { case 0: return (T)c.range(-4, 4); case 1: return (T)c.range(-40, 40) / 8; case 2: return (T)c.range(-1000000, 1000000) / (T)1024; default: return (T)((double)c.range(-1000, 1000) * std::ldexp(1.0, (int)c.range(-12, 12))); } }
template <class T, size_t N> std::array<T, N> pt(Case &c) { std::array<T, N> a; for (auto &x : a) x = coord<T>(c); return a; }
template <class T, size_t N> ld big(const std::array<T, N> &a) { ld m = 0; for (T x : a) m = std::max(m, std::fabs((ld)x)); return m; }
// curves: both evaluation methods give the Bernstein polynomial, which ends at the end points
template <class T, size_t N, size_t K> void bezier(Case &c) {
  std::array<std::array<T, N>, K> p; ld m = 0; for (auto &q : p) { q = pt<T, N>(c); m = std::max(m, big(q)); } T t; switch (c.below(5)) { case 0: t = 0; break; case 1: t = 1; break; case 2: t = (T)c.range(-8, 16) / 8; break; default: t = (T)c.below(1000001) / (T)1000000; }
  NOTE(c, "degree " << K - 1 << ", " << N << " " << tn<T>() << ", t " << show(t)); for (auto &q : p) NOTE(c, "  " << show(q)); ld s = 1 - (ld)t, grow = std::pow(std::fabs((ld)t) + std::fabs(s), (ld)(K - 1)), tol = 32 * eps<T>() * m * grow;
  with_pair(c, p[0], p[1], [&](const auto &a, const auto &ma, const auto &b, const auto &mb) { with_pair(c, p[K - 2], p[K - 1], [&](const auto &d, const auto &md, const auto &e, const auto &me) {
    auto r1 = [&] { if constexpr (K == 3) return quadratic_bezier_eval(a, b, e, t); else return cubic_bezier_eval(a, b, d, e, t); }(); auto r2 = [&] { if constexpr (K == 3) return quadratic_bezier_eval2(a, b, e, t); else return cubic_bezier_eval2(a, b, d, e, t); }();
    auto at = [](const auto &r, size_t i) { if constexpr (N == 1) return (ld)r; else return (ld)r[i]; };
    for (size_t i = 0; i < N; ++i) { ld w = K == 3 ? s * s * ma[i] + 2 * t * s * mb[i] + (ld)t * t * me[i] : s * s * s * ma[i] + 3 * t * s * s * mb[i] + 3 * (ld)t * t * s * md[i] + (ld)t * t * t * me[i];
      CK(std::fabs(at(r1, i) - w) <= tol, "component " << i << " is " << (double)at(r1, i) << ", expected " << (double)w); CK(std::fabs(at(r2, i) - w) <= tol, "second method, component " << i << " is " << (double)at(r2, i) << ", expected " << (double)w);
      if (t == 0) CK(at(r1, i) == (ld)ma[i] && at(r2, i) == (ld)ma[i], "the curve does not start at its first point"); if (t == 1) CK(at(r1, i) == (ld)me[i] && at(r2, i) == (ld)me[i], "the curve does not end at its last point"); } }); });
  c.nontrivial(t != 0 && t != 1);
}
void beziers(Case &c) { auto go = [&]<class T>() { each_size(c, [&]<size_t N>() { if (c.coin()) bezier<T, N, 3>(c); else bezier<T, N, 4>(c); }); }; if (c.coin()) go.template operator()<float>(); else go.template operator()<double>(); }
template <class T, size_t N> void angle(Case &c) {
  std::array<T, N> a = pt<T, N>(c), b; int how = (int)c.below(5); T k = (T)(1 + c.below(8)); for (size_t i = 0; i < N; ++i) b[i] = how == 0 ? a[i] * k : how == 1 ? -a[i] * k : how == 2 ? a[i] + coord<T>(c) / 4096 : coord<T>(c); NOTE(c, tn<T>() << " " << show(a) << " and " << show(b));
  with_pair(c, a, b, [&](const auto &x, const auto &mx, const auto &y, const auto &my) { T g = angle_between(x, y), g2 = angle_between(y, x); V3 u{}, v{}; for (size_t i = 0; i < N; ++i) { u[i] = mx[i]; v[i] = my[i]; } CK(g >= 0 && g <= std::numbers::pi_v<T>, "the angle is " << show(g)); if (dt(u, u) == 0 || dt(v, v) == 0) return;
    ld w = std::atan2(len(cr(u, v)), dt(u, v)), tol = 32 * eps<T>(); CK(std::fabs((ld)g - w) <= tol, "the angle is " << show(g) << ", expected " << (double)w); CK(std::fabs((ld)g2 - w) <= tol, "the angle the other way is " << show(g2) << ", expected " << (double)w); });
  c.nontrivial(how > 1);
}
void angles(Case &c) { switch (c.below(4)) { case 0: angle<float, 2>(c); break; case 1: angle<float, 3>(c); break; case 2: angle<double, 2>(c); break; default: angle<double, 3>(c); } }
// geometry of well-conditioned points, compared with the same construction in extended precision
template <class T> void geo(Case &c) {
  auto p = [&] { std::array<T, 3> a; for (auto &x : a) x = (T)c.range(-64, 64) / 4; return a; }; std::array<T, 3> A = p(), B = p(), C_ = p(), Q = p(); auto L = [](auto a) { return V3{(ld)a[0], (ld)a[1], (ld)a[2]}; }; V3 a = L(A), b = L(B), d = L(C_), q = L(Q); V3 n = cr(b - a, d - a); ld sz_ = std::max({len(a), len(b), len(d), len(q), (ld)1}); NOTE(c, tn<T>() << " " << show(A) << " " << show(B) << " " << show(C_) << ", point " << show(Q));
  { basic_vector<T, 2> v(A[0], A[1]); auto r1 = get_perpendicular1(v), r2 = get_perpendicular2(v); CK(r1[0] == -A[1] && r1[1] == A[0] && r2[0] == -A[1] && r2[1] == A[0], "the perpendicular is wrong"); }
  if (len(n) == 0 || len(n) < (ld)0.02 * len(b - a) * len(d - a)) return; ld cond = sz_ * sz_ / (len(n) ? std::min(len(n), (ld)1e6) : 1) + sz_ / len(a - b) + 1, tol = 256 * eps<T>() * sz_ * cond * cond; auto close = [&](const char *name, const auto &r, V3 w, ld k = 1) { for (int i = 0; i < 3; ++i) CK(std::fabs((ld)r[i] - w[i]) <= k * tol * (1 + len(w) / sz_), name << ", component " << i << " is " << show(T(r[i])) << ", expected " << (double)w[i]); };
  with_pair(c, A, B, [&](const auto &u, const auto &mu, const auto &v, const auto &mv) { with_pair(c, C_, Q, [&](const auto &w, const auto &mw, const auto &z, const auto &mz) {
    if (L(mu) != a || L(mv) != b || L(mw) != d || L(mz) != q) return;
    ld m1 = len(b - d), m2 = len(d - a), m3 = len(a - b); V3 in = (1 / (m1 + m2 + m3)) * (m1 * a + m2 * b + m3 * d); close("triangle_incenter", triangle_incenter(u, v, w), in);
    ld k1 = len(cr(b, d)), k2 = len(cr(d, a)), k3 = len(cr(a, b)), k4 = len(cr(b - a, d - a)); close("tetrahedron_incenter", tetrahedron_incenter(u, v, w), (1 / (k1 + k2 + k3 + k4)) * (k1 * a + k2 * b + k3 * d));
    V3 bc = b - a, cc = d - a; V3 cen = a + (1 / (2 * dt(n, n))) * (dt(bc, bc) * cr(cc, n) - dt(cc, cc) * cr(bc, n)); cen = a + (1 / (2 * dt(n, n))) * cr(dt(bc, bc) * cc - dt(cc, cc) * bc, n); ld rad = len(cen - a);
    close("three_point_circle_center", three_point_circle_center(u, v, w), cen, 64); T r = three_point_circle_radius(u, v, w); CK(std::fabs((ld)r - rad) <= 64 * tol * (1 + rad / sz_), "three_point_circle_radius is " << show(r) << ", expected " << (double)rad);
    V3 pr = a + (dt(q - a, b - a) / dt(b - a, b - a)) * (b - a); close("project_to_line1", project_to_line1(z, u, v), pr); close("project_to_line2", project_to_line2(z, u, v), pr); close("project_to_line3", project_to_line3(z, u, v), pr); T dl = distance_to_line(z, u, v); CK(std::fabs((ld)dl - len(q - pr)) <= tol * 4, "distance_to_line is " << show(dl) << ", expected " << (double)len(q - pr));
    V3 pl = q - (dt(n, q - a) / dt(n, n)) * n; close("project_to_plane1", project_to_plane1(z, u, v, w), pl, 4); close("project_to_plane2", project_to_plane2(z, u, v, w), pl, 4); }); });
  c.nontrivial();
}
void geos(Case &c) { if (c.coin()) geo<float>(c); else geo<double>(c); }
PBT_PROP("C24.bezier", 2, beziers); PBT_PROP("C24.angle", 1, angles); PBT_PROP("C24.geometry", 1, geos);
}
#endif
