// C15: matrix products and the matrix functions other than determinant and inverse.
// PART 0,1: products with vectors (float, double matrix); 2,3: matrix products; 4,5: functions.
#include "mats.hpp"
namespace {
using namespace dsga;
using E = std::conditional_t<PART % 2 == 0, float, double>;
using F = std::conditional_t<PART % 2 == 0, double, float>;
using LD = long double;
// entries: mode 0 small integers (all results exact), 1 integers as large as exactness allows, 2 reals, 3 arbitrary finite values,
// 4 small integers, infinities and NaN (which of them a sum gives does not depend on the order)
template <class X> constexpr ll big_lim = std::is_same_v<X, float> ? 1500 : std::is_integral_v<X> ? 1500 : 20000000;
template <class X> X gen_entry(Case &c, int mode, ll lim) {
  if constexpr (std::is_floating_point_v<X>) if (mode == 4) { unsigned k = c.below(10); if (k == 0) return X(NAN); if (k == 1) return X(INFINITY); if (k == 2) return -X(INFINITY); if (k == 3) return X(0); }
  if (mode == 0 || mode == 4) { int v = (int)c.range(-9, 9); return std::is_unsigned_v<X> ? X(v < 0 ? -v : v) : X(v); }
  if (mode == 1) { ll v = c.range(-lim, lim); return std::is_unsigned_v<X> ? X(v < 0 ? -v : v) : X(v); }
  if constexpr (std::is_integral_v<X>) return X(c.below(1000)); else { if (mode == 2) { X v = X(c.range(-1000000, 1000000)) / X(997); return c.chance(1, 8) ? X(0) : std::ldexp(v, (int)c.range(-6, 6)); } X v = gen_finite<X>(c); return v; }
}
template <class X> std::string shw(const X &a) { return show(a); }
// compare with the sum of products: exact in the integer modes, otherwise within the rounding bound
template <class X> void sum_is(X got, LD sum, LD ab, int n, bool exact, const std::string &what) {
  if (exact) { if (sum != sum) { CK(got != got, what << " is " << show(got) << ", expected NaN"); return; } CK(got == X(sum), what << " is " << show(got) << ", expected exactly " << show(X(sum))); return; }
  using L = std::numeric_limits<X>; if (!(ab < LD(L::max()) / 4)) return;
  LD lim = ab * LD(L::epsilon()) * (n + 1) + LD(L::denorm_min()) * (2 * n + 2); CK(std::fabs(LD(got) - sum) <= lim, what << " is " << show(got) << ", expected about " << show((double)sum) << " within " << show((double)lim));
}
template <class V, class X, size_t N> constexpr bool is_vec = std::is_same_v<std::remove_cvref_t<V>, basic_vector<X, N>>;
#if PART < 2
template <class U, size_t C, size_t R> void mv(Case &c) {
  using X = std::common_type_t<E, U>; int mode = (int)c.below(5); ll lim = std::min({big_lim<E>, big_lim<U>, big_lim<X>}); if (mode == 3 && std::is_integral_v<U>) mode = 2; bool exact = mode < 2 || mode == 4;
  model<E, C, R> a; for (auto &x : a) x = gen_entry<E>(c, mode, lim); std::array<U, C> v; for (auto &x : v) x = gen_entry<U>(c, mode, lim); std::array<U, R> u; for (auto &x : u) x = gen_entry<U>(c, mode, lim); auto m = mat_of<E, C, R>(a); const auto &cm = m;
  NOTE(c, C << "x" << R << " " << tname<E>() << " " << show(a) << " times " << tname<U>() << " " << show(v) << " / " << show(u) << " times it");
  hk<700 + C * 16 + R * 4, 3>(c, [&](auto &ov, auto &ou) {
    auto r = cm * ov.get(); auto l = ou.get() * cm; constexpr bool ok = is_vec<decltype(r), X, R> && is_vec<decltype(l), X, C>; CK(ok, "result is not a vector of the right length and element type");
    if constexpr (ok) {
      for (size_t j = 0; j < R; ++j) { LD s = 0, ab = 0; for (size_t i = 0; i < C; ++i) { LD t = LD(X(a[i * R + j])) * LD(X(ov.m[i])); s += t; ab += std::fabs(t); } sum_is<X>(r[j], s, ab, C, exact, "matrix * vector: component " + std::to_string(j)); }
      for (size_t i = 0; i < C; ++i) { LD s = 0, ab = 0; for (size_t j = 0; j < R; ++j) { LD t = LD(X(a[i * R + j])) * LD(X(ou.m[j])); s += t; ab += std::fabs(t); } sum_is<X>(l[i], s, ab, R, exact, "vector * matrix: component " + std::to_string(i)); }
    }
  }, v, u);
  for (size_t i = 0; i < C * R; ++i) CK(same(m[i / R][i % R], a[i]), "the matrix changed"); c.nontrivial(all_distinct(v) && all_distinct(u) && has_nonzero(a));
}
template <class U> void mv_u(Case &c) { with_shape(c, [&]<size_t C, size_t R>() { mv<U, C, R>(c); }); }
#define P(U) PBT_PROP(((const char *)[] { static std::string s = std::string("C15.vector_product.") + tname<E>() + "." + tname<U>(); return s.c_str(); }()), 0.5, mv_u<U>);
P(float) P(double) P(int) P(unsigned) P(ll) P(ull)
// which products compile
template <class A, class B> constexpr bool can_mul = requires (const A &a, const B &b) { a * b; };
template <class U> void table(Case &c) {
  [&]<size_t... S>(std::index_sequence<S...>) { ([&] { constexpr size_t C = S % 3 + 2, R = S / 3 % 3 + 2, N = S / 9 % 4 + 1; using M = basic_matrix<E, C, R>; using V = basic_vector<U, N>;
    constexpr bool mvok = can_mul<M, V>, vmok = can_mul<V, M>; if constexpr (N > 1) { CK(mvok == (C == N), C << "x" << R << " matrix * vector of length " << N << (mvok ? " compiles" : " does not compile")); CK(vmok == (R == N), "vector of length " << N << " * " << C << "x" << R << " matrix" << (vmok ? " compiles" : " does not compile")); } }(), ...); }(std::make_index_sequence<36>{}); c.nontrivial();
}
PBT_PROP(((const char *)[] { static std::string s = std::string("C15.which_vector_products_compile.") + tname<E>(); return s.c_str(); }()), 0.0005, table<int>);
#elif PART < 4
template <class U, size_t C, size_t R, size_t D> void mm(Case &c) {          // (R x C) * (C x D) in rows x columns
  using X = std::common_type_t<E, U>; int mode = (int)c.below(5); ll lim = std::min({big_lim<E>, big_lim<U>}); bool exact = mode < 2 || mode == 4;
  model<E, C, R> a; for (auto &x : a) x = gen_entry<E>(c, mode, lim); model<U, D, C> b; for (auto &x : b) x = gen_entry<U>(c, mode, lim); auto m = mat_of<E, C, R>(a); auto n = mat_of<U, D, C>(b);
  NOTE(c, C << "x" << R << " " << tname<E>() << " " << show(a) << " times " << D << "x" << C << " " << tname<U>() << " " << show(b)); auto r = std::as_const(m) * std::as_const(n); constexpr bool ok = std::is_same_v<decltype(r), basic_matrix<X, D, R>>; CK(ok, "result has the wrong shape or element type");
  if constexpr (ok) {
    for (size_t d = 0; d < D; ++d) for (size_t j = 0; j < R; ++j) { LD s = 0, ab = 0; for (size_t i = 0; i < C; ++i) { LD t = LD(a[i * R + j]) * LD(b[d * C + i]); s += t; ab += std::fabs(t); } sum_is<X>(r[d][j], s, ab, C, exact, "entry [" + std::to_string(d) + "][" + std::to_string(j) + "] of the product"); }
    if (mode == 0) {                                        // laws, exactly
      auto t1 = transpose(r); auto t2 = transpose(n) * transpose(m); CK(t1 == t2, "transpose(A * B) is not transpose(B) * transpose(A)");
      basic_vector<X, D> v; for (size_t d = 0; d < D; ++d) v[d] = X(c.range(-5, 5)); CK((r * v == m * (n * v)), "(A * B) * v is not A * (B * v)"); basic_vector<X, R> u; for (size_t j = 0; j < R; ++j) u[j] = X(c.range(-5, 5)); CK((u * r == (u * m) * n), "u * (A * B) is not (u * A) * B"); CK((u * m == transpose(m) * u), "u * A is not transpose(A) * u");
      auto n2 = n; for (size_t d = 0; d < D; ++d) for (size_t i = 0; i < C; ++i) n2[d][i] = U(c.range(-9, 9)); CK((m * (n + n2) == m * n + m * n2), "A * (B + C) is not A * B + A * C"); basic_matrix<E, C, C> id(1); CK((m * id == m), "A * identity is not A"); basic_matrix<E, R, R> id2(1); CK((id2 * m == m), "identity * A is not A"); CK(((m * E(3)) * n == (m * n) * X(3)), "(3 A) * B is not 3 (A * B)");
    }
  }
  for (size_t i = 0; i < C * R; ++i) CK(same(m[i / R][i % R], a[i]), "the left operand changed"); for (size_t i = 0; i < D * C; ++i) CK(same(n[i / C][i % C], b[i]), "the right operand changed"); c.nontrivial(has_nonzero(a) && has_nonzero(b));
}
template <class U> void mm_u(Case &c) { size_t d = c.below(3); with_shape(c, [&]<size_t C, size_t R>() { d == 0 ? mm<U, C, R, 2>(c) : d == 1 ? mm<U, C, R, 3>(c) : mm<U, C, R, 4>(c); }); }
#define P(U) PBT_PROP(((const char *)[] { static std::string s = std::string("C15.matrix_product.") + tname<E>() + "." + tname<U>(); return s.c_str(); }()), 1, mm_u<U>);
P(float) P(double)
// powers and assignment from a product of the target itself
template <size_t N> void self_n(Case &c) {
  model<E, N, N> a; for (auto &x : a) x = E(c.range(-6, 6)); auto m = mat_of<E, N, N>(a); NOTE(c, "m = m * m of " << show(a)); auto ref = [&](const model<E, N, N> &x, const model<E, N, N> &y) { model<E, N, N> r{}; for (size_t d = 0; d < N; ++d) for (size_t j = 0; j < N; ++j) for (size_t i = 0; i < N; ++i) r[d * N + j] += x[i * N + j] * y[d * N + i]; return r; };
  auto w = ref(a, a); CK(same_arr(model_of(m * m), w) || numeq_arr(model_of(m * m), w), "m * m"); auto m2 = m; m2 = m2 * m; CK(numeq_arr(model_of(m2), w), "m = m * n"); m2 = m * m2; CK(numeq_arr(model_of(m2), ref(a, w)), "m = n * m"); m[0] = m * m[0]; basic_vector<E, N> v(m2[0]); v = m2 * v; for (size_t j = 0; j < N; ++j) { E s = 0, t = 0; auto w3 = ref(a, w); for (size_t i = 0; i < N; ++i) { s += a[i * N + j] * a[i]; t += w3[i * N + j] * w3[i]; } CK(m[0][j] == s, "m[0] = m * m[0]: component " << j); constexpr bool FL = sizeof(E) == 4; CK(FL || v[j] == t, "v = m * v: component " << j); } c.nontrivial();
}
void self(Case &c) { switch (c.below(3)) { case 0: self_n<2>(c); break; case 1: self_n<3>(c); break; default: self_n<4>(c); } }
PBT_PROP(((const char *)[] { static std::string s = std::string("C15.product_into_operand.") + tname<E>(); return s.c_str(); }()), 0.5, self);
template <class A, class B> constexpr bool can_mul = requires (const A &a, const B &b) { a * b; };
void table(Case &c) {
  [&]<size_t... S>(std::index_sequence<S...>) { ([&] { constexpr size_t C1 = S % 3 + 2, R1 = S / 3 % 3 + 2, C2 = S / 9 % 3 + 2, R2 = S / 27 + 2; constexpr bool a = can_mul<basic_matrix<E, C1, R1>, basic_matrix<E, C2, R2>>, b = can_mul<basic_matrix<E, C1, R1>, basic_matrix<F, C2, R2>>; CK(a == (C1 == R2) && b == (C1 == R2), C1 << "x" << R1 << " * " << C2 << "x" << R2 << (a ? " compiles" : " does not compile")); }(), ...); }(std::make_index_sequence<81>{}); c.nontrivial();
}
PBT_PROP(((const char *)[] { static std::string s = std::string("C15.which_products_compile.") + tname<E>(); return s.c_str(); }()), 0.0005, table);
#else
template <size_t C, size_t R> void fns(Case &c) {
  model<E, C, R> a; model<F, C, R> b; for (auto &x : a) x = gen_any<E>(c); for (auto &x : b) x = gen_any<F>(c); model<E, C, R> a2; for (auto &x : a2) x = gen_any<E>(c); auto m = mat_of<E, C, R>(a), m2 = mat_of<E, C, R>(a2); auto n = mat_of<F, C, R>(b); using X = std::common_type_t<E, F>;
  NOTE(c, C << "x" << R << " " << tname<E>() << " " << show(a) << " and " << show(b)); auto t = transpose(std::as_const(m)); constexpr bool okt = std::is_same_v<decltype(t), basic_matrix<E, R, C>>; CK(okt, "type of transpose"); auto p = matrixCompMult(std::as_const(m), n); auto p2 = matrixCompMult(m, m2); auto p3 = matrixCompMult(n, m); constexpr bool okp = std::is_same_v<decltype(p), basic_matrix<X, C, R>> && std::is_same_v<decltype(p2), basic_matrix<E, C, R>>; CK(okp, "type of matrixCompMult");
  for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { size_t k = i * R + j; if constexpr (okt) CK(same(t[j][i], a[k]), "transpose: entry [" << j << "][" << i << "] is " << show(t[j][i]) << ", expected " << show(a[k])); CK(same(p[i][j], X(a[k]) * X(b[k])), "matrixCompMult: entry [" << i << "][" << j << "]"); CK(same(p2[i][j], a[k] * a2[k]), "matrixCompMult of equal types: entry [" << i << "][" << j << "]"); CK(same(p3[i][j], X(b[k]) * X(a[k])), "matrixCompMult swapped: entry [" << i << "][" << j << "]"); CK(same(m[i][j], a[k]) && same(n[i][j], b[k]), "an argument changed"); }
  auto tt = transpose(t); for (size_t i = 0; i < C * R; ++i) CK(same(tt[i / R][i % R], a[i]), "transpose of the transpose"); c.nontrivial(all_distinct(a));
}
void functions_(Case &c) { with_shape(c, [&]<size_t C, size_t R>() { fns<C, R>(c); }); }
template <class U, size_t N1, size_t N2> void outer(Case &c) {
  using X = std::common_type_t<E, U>; std::array<E, N1> a; std::array<U, N2> b; for (auto &x : a) x = gen_any<E>(c); for (auto &x : b) x = gen_any<U>(c); NOTE(c, "outerProduct of " << tname<E>() << " " << show(a) << " and " << tname<U>() << " " << show(b));
  hk<900 + N1 * 16 + N2 * 4, 3>(c, [&](auto &x, auto &y) {
    auto r = outerProduct(x.get(), y.get()); auto q = outerProduct(y.get(), x.get()); constexpr bool ok = std::is_same_v<decltype(r), basic_matrix<X, N2, N1>> && std::is_same_v<decltype(q), basic_matrix<X, N1, N2>>; CK(ok, "type of outerProduct");
    if constexpr (ok) for (size_t i = 0; i < N2; ++i) for (size_t j = 0; j < N1; ++j) { X w = X(x.m[j]) * X(y.m[i]); CK(same(r[i][j], w), "outerProduct: entry [" << i << "][" << j << "] is " << show(r[i][j]) << ", expected " << show(w)); CK(same(q[j][i], w), "outerProduct swapped: entry [" << j << "][" << i << "] is " << show(q[j][i]) << ", expected " << show(w)); }
  }, a, b); c.nontrivial(all_distinct(a) && all_distinct(b));
}
template <class U> void outer_u(Case &c) { with_shape(c, [&]<size_t C, size_t R>() { outer<U, C, R>(c); }); }
template <size_t N> void diag_n(Case &c) {
  std::array<E, N> a; for (auto &x : a) x = gen_any<E>(c); NOTE(c, "diagonal_matrix of " << show(a)); bool small = c.coin(); if (small) for (auto &x : a) x = E(c.range(-50, 50)); std::array<E, N> b; for (auto &x : b) x = E(c.range(-50, 50));
  with_kind<E, N>(c, a, [&](auto &v, const auto &m) { auto d = diagonal_matrix(v); constexpr bool ok = std::is_same_v<decltype(d), basic_matrix<E, N, N>>; CK(ok, "type of diagonal_matrix"); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) CK(same(d[i][j], i == j ? m[i] : E(0)), "diagonal_matrix: entry [" << i << "][" << j << "] is " << show(d[i][j])); if (small) { auto w = mk(b); CK((d * w == v * w && w * d == v * w), "diagonal_matrix(v) * w is not v * w"); } }); c.nontrivial(all_distinct(a));
}
void diag(Case &c) { switch (c.below(3)) { case 0: diag_n<2>(c); break; case 1: diag_n<3>(c); break; default: diag_n<4>(c); } }
void crossm(Case &c) {
  std::array<E, 3> a, b; bool small = c.coin(); for (auto &x : a) x = small ? E(c.range(-1000, 1000)) : gen_any<E>(c); for (auto &x : b) x = E(c.range(-1000, 1000)); NOTE(c, "cross_matrix of " << show(a));
  with_kind<E, 3>(c, a, [&](auto &v, const auto &m) { auto x = cross_matrix(v); constexpr bool ok = std::is_same_v<decltype(x), basic_matrix<E, 3, 3>>; CK(ok, "type of cross_matrix"); E z = 0; E w[3][3] = {{z, m[2], -m[1]}, {-m[2], z, m[0]}, {m[1], -m[0], z}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CK(same(x[i][j], w[i][j]), "cross_matrix: entry [" << i << "][" << j << "] is " << show(x[i][j]) << ", expected " << show(w[i][j]));
    if (small) { auto u = mk(b); basic_vector<E, 3> vv(v); CK((x * u == cross(vv, u) && vv * cross_matrix(u) == cross(vv, u)), "cross_matrix(v) * u is not cross(v, u)"); E e[3] = {m[1] * b[2] - m[2] * b[1], m[2] * b[0] - m[0] * b[2], m[0] * b[1] - m[1] * b[0]}; auto r = x * u; for (int i = 0; i < 3; ++i) CK(r[i] == e[i], "cross_matrix(v) * u: component " << i); CK((transpose(x) == -x), "cross_matrix is not skew-symmetric"); } }); c.nontrivial(all_distinct(a));
}
#define NM(X) ((const char *)[] { static std::string s = std::string("C15.") + X + "." + tname<E>(); return s.c_str(); }())
PBT_PROP(NM("transpose_compmult"), 1, functions_);
PBT_PROP(NM("outer_product.int"), 0.5, outer_u<int>); PBT_PROP(NM("outer_product.unsigned"), 0.5, outer_u<unsigned>); PBT_PROP(NM("outer_product.llong"), 0.5, outer_u<ll>); PBT_PROP(NM("outer_product.float"), 0.5, outer_u<float>); PBT_PROP(NM("outer_product.double"), 0.5, outer_u<double>);
PBT_PROP(NM("diagonal_matrix"), 0.5, diag); PBT_PROP(NM("cross_matrix"), 0.5, crossm);
#endif
}
