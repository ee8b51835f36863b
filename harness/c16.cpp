// C16: determinant and inverse of 2x2, 3x3, 4x4. PART 0: float, 1: double.
#include "mats.hpp"
namespace {
using namespace dsga;
using E = std::conditional_t<PART % 2 == 0, float, double>;
using LD = long double; using i128 = __int128;
constexpr LD EPS = std::numeric_limits<E>::epsilon(), TINY = std::numeric_limits<E>::denorm_min(), BIG = std::numeric_limits<E>::max();
// determinant by permutations, of any ring; absolute: sum of the absolute values of the terms
template <class X, size_t N> X det_ref(const std::array<std::array<X, N>, N> &m, bool absolute = false) {
  std::array<size_t, N> p; for (size_t i = 0; i < N; ++i) p[i] = i; X s = 0;
  do { X t = 1; int inv = 0; for (size_t i = 0; i < N; ++i) { X v = m[i][p[i]]; t *= absolute && v < 0 ? -v : v; for (size_t j = 0; j < i; ++j) inv += p[j] > p[i]; } s += !absolute && inv % 2 ? -t : t; } while (std::next_permutation(p.begin(), p.end()));
  return s;
}
// cofactor of column i, row j
template <class X, size_t N> X cof_ref(const std::array<std::array<X, N>, N> &m, size_t i, size_t j, bool absolute = false) {
  std::array<std::array<X, N - 1>, N - 1> s{}; for (size_t a = 0, x = 0; a < N; ++a) if (a != i) { for (size_t b = 0, y = 0; b < N; ++b) if (b != j) s[x][y++] = m[a][b]; ++x; }
  X d = det_ref<X, N - 1>(s, absolute); return !absolute && (i + j) % 2 ? -d : d;
}
template <size_t N> constexpr ll exact_lim = sizeof(E) == 4 ? (N == 2 ? 2800 : N == 3 ? 140 : 28) : (N == 2 ? 60000000 : N == 3 ? 110000 : 4300);
template <class X, size_t N> std::array<std::array<X, N>, N> to2(const auto &a) { std::array<std::array<X, N>, N> r; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) r[i][j] = X(a[i * N + j]); return r; }
// integer matrices of several structures
template <size_t N> std::array<ll, N * N> gen_int(Case &c, ll lim, const char *&kind) {
  std::array<ll, N * N> a{}; std::array<size_t, N> p; for (size_t i = 0; i < N; ++i) p[i] = i; for (size_t i = N; i > 1; --i) std::swap(p[i - 1], p[c.below(i)]); auto nz = [&](ll l) { ll v = c.range(1, l); return c.coin() ? v : -v; };
  switch (c.below(9)) {
    case 0: kind = "dense, small"; for (auto &x : a) x = c.range(-9, 9); break;
    case 1: kind = "dense, large"; for (auto &x : a) x = c.range(-lim, lim); break;
    case 2: kind = "permutation"; for (size_t i = 0; i < N; ++i) a[i * N + p[i]] = c.coin() ? 1 : -1; break;
    case 3: kind = "scaled permutation"; for (size_t i = 0; i < N; ++i) a[i * N + p[i]] = nz(lim); break;
    case 4: kind = "permutation plus one"; for (size_t i = 0; i < N; ++i) a[i * N + p[i]] = nz(5); a[c.below(N * N)] = nz(9); break;
    case 5: kind = "upper triangular"; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j <= i; ++j) a[i * N + j] = i == j ? nz(4) : c.range(-6, 6); break;
    case 6: kind = "lower triangular"; for (size_t i = 0; i < N; ++i) for (size_t j = i; j < N; ++j) a[i * N + j] = i == j ? nz(4) : c.range(-6, 6); break;
    case 7: kind = "sparse"; for (auto &x : a) x = c.chance(1, 2) ? 0 : nz(6); break;
    default: { kind = "unimodular"; for (size_t i = 0; i < N; ++i) a[i * N + p[i]] = c.coin() ? 1 : -1; for (int s = 0; s < 3; ++s) { size_t i = c.below(N), k = c.below(N); if (i == k) continue; ll f = c.range(-2, 2); std::array<ll, N> t; bool ok = true; for (size_t j = 0; j < N; ++j) { t[j] = a[i * N + j] + f * a[k * N + j]; ok &= std::llabs(t[j]) <= std::min(lim, 28ll); } if (ok) for (size_t j = 0; j < N; ++j) a[i * N + j] = t[j]; } }
  }
  return a;
}
template <size_t N> basic_matrix<E, N, N> mat_int(const std::array<ll, N * N> &a, int k = 0) { model<E, N, N> m; for (size_t i = 0; i < N * N; ++i) m[i] = std::ldexp(E(a[i]), k); return mat_of<E, N, N>(m); }

template <size_t N> void det_int(Case &c) {
  const char *kind = ""; auto a = gen_int<N>(c, exact_lim<N>, kind); int k = c.coin() ? 0 : (int)c.range(-20, 20); auto m = mat_int<N>(a, k); const auto &cm = m; NOTE(c, "determinant of " << N << "x" << N << " " << tname<E>() << " (" << kind << ", times 2^" << k << ") " << show(a)); c.label(kind);
  i128 d = det_ref<i128, N>(to2<i128, N>(a)); E w = std::ldexp(E((LD)d), k * (int)N); auto r = determinant(cm); constexpr bool ty = std::is_same_v<decltype(r), E>; CK(ty, "type of determinant");
  CK(r == w, "determinant is " << show(r) << ", expected exactly " << show(w)); CK(determinant(transpose(m)) == w, "determinant of the transpose is " << show(determinant(transpose(m)))); for (size_t i = 0; i < N * N; ++i) CK(m[i / N][i % N] == std::ldexp(E(a[i]), k), "the argument changed");
  { size_t i = c.below(N), j = c.below(N); if (i != j) { auto q = m; swap(q[i], q[j]); CK(determinant(q) == -w, "exchanging two columns does not negate the determinant"); q[i] = q[j]; CK(determinant(q) == 0, "determinant with two equal columns is not 0"); } auto q = m; q[i] *= E(2); CK(determinant(q) == w * 2, "doubling a column does not double the determinant"); q[i] *= E(0); CK(determinant(q) == 0, "determinant with a zero column is not 0"); }
  c.nontrivial(d != 0);
}
template <size_t N> void det_mul(Case &c) {
  ll lim = sizeof(E) == 4 ? (N == 2 ? 30 : N == 3 ? 6 : 2) : 10; std::array<ll, N * N> a, b; for (auto &x : a) x = c.range(-lim, lim); for (auto &x : b) x = c.range(-lim, lim); auto m = mat_int<N>(a), n = mat_int<N>(b); NOTE(c, "determinants of " << N << "x" << N << " " << show(a) << " and " << show(b));
  CK(determinant(m * n) == determinant(m) * determinant(n), "determinant(A * B) is " << show(determinant(m * n)) << ", determinant(A) * determinant(B) is " << show(determinant(m) * determinant(n))); CK(determinant(basic_matrix<E, N, N>(1)) == 1, "determinant of the identity"); c.nontrivial(determinant(m) != 0 && determinant(n) != 0);
}
template <size_t N> void inv_int(Case &c) {
  const char *kind = ""; auto a = gen_int<N>(c, exact_lim<N>, kind); int k = c.coin() ? 0 : (int)c.range(-16, 16); i128 d = det_ref<i128, N>(to2<i128, N>(a)); auto m = mat_int<N>(a, k); const auto &cm = m; NOTE(c, "inverse of " << N << "x" << N << " " << tname<E>() << " (" << kind << ", times 2^" << k << ") " << show(a));
  if (d == 0) { auto r = inverse(cm); (void)r; return; } c.label(kind); c.nontrivial(); auto r = inverse(cm); constexpr bool ty = std::is_same_v<decltype(r), basic_matrix<E, N, N>>; CK(ty, "type of inverse");
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { i128 n = cof_ref<i128, N>(to2<i128, N>(a), j, i); LD w = std::ldexp((LD)n / (LD)d, -k); CK(std::fabs((LD)r[i][j] - w) <= std::fabs(w) * EPS * 3, "inverse: entry [" << i << "][" << j << "] is " << show(r[i][j]) << ", expected " << show((double)w)); }
  for (size_t i = 0; i < N * N; ++i) CK(m[i / N][i % N] == std::ldexp(E(a[i]), k), "the argument changed");
  if (d == 1 || d == -1) { basic_matrix<E, N, N> id(1); CK((r * m == id && m * r == id), "inverse of an integer matrix of determinant " << (int)d << " times the matrix is not the identity"); bool small = true; for (size_t i = 0; i < N * N; ++i) small &= std::fabs(std::ldexp(r[i / N][i % N], k)) <= exact_lim<N>; if (small) CK((inverse(r) == m), "inverse of the inverse is not the matrix"); }
}
// real matrices, several families; entrywise forward bound of the cofactor formula
template <size_t N> std::array<LD, N * N> gen_real(Case &c, const char *&kind) {
  std::array<LD, N * N> a{}; auto u = [&] { return (LD)c.range(-1000000, 1000000) / 1000000; };
  switch (c.below(5)) {
    case 0: kind = "uniform"; for (auto &x : a) x = u(); break;
    case 1: kind = "dominant diagonal"; for (size_t i = 0; i < N * N; ++i) a[i] = u() + (i % (N + 1) == 0 ? (c.coin() ? 3 : -3) : 0); break;
    case 2: { kind = "rotation"; for (size_t i = 0; i < N; ++i) a[i * N + i] = 1; for (int s = 0; s < 5; ++s) { size_t p = c.below(N), q = c.below(N); if (p == q) continue; LD t = u() * 3.2L, cs = std::cos(t), sn = std::sin(t); for (size_t j = 0; j < N; ++j) { LD x = a[p * N + j], y = a[q * N + j]; a[p * N + j] = cs * x - sn * y; a[q * N + j] = sn * x + cs * y; } } break; }
    case 3: { kind = "affine transform"; for (size_t i = 0; i + 1 < N; ++i) { for (size_t j = 0; j + 1 < N; ++j) a[i * N + j] = u() + (i == j ? 2 : 0); a[(N - 1) * N + i] = u() * 10; } a[N * N - 1] = 1; break; }
    default: kind = "scaled rows and columns"; { std::array<int, N> s, t; for (auto &x : s) x = (int)c.range(-4, 4); for (auto &x : t) x = (int)c.range(-4, 4); for (size_t i = 0; i < N * N; ++i) a[i] = std::ldexp(u() + (i % (N + 1) == 0 ? 2 : 0), s[i / N] + t[i % N]); }
  }
  return a;
}
template <size_t N> void inv_real(Case &c) {
  const char *kind = ""; auto g = gen_real<N>(c, kind); int k = c.coin() ? 0 : (int)c.range(-16, 16); model<E, N, N> a; for (size_t i = 0; i < N * N; ++i) a[i] = std::ldexp(E(g[i]), k); auto m = mat_of<E, N, N>(a); auto L = to2<LD, N>(a); NOTE(c, "inverse of " << N << "x" << N << " " << tname<E>() << " (" << kind << ") " << show(a)); c.label(kind);
  LD d = det_ref<LD, N>(L), ad = det_ref<LD, N>(L, true); E gd = determinant(std::as_const(m)); LD K = 2 * N + 4; CK(std::fabs((LD)gd - d) <= ad * EPS * K + TINY * 64, "determinant is " << show(gd) << ", expected about " << show((double)d)); if (!(ad * EPS * K * 4 < std::fabs(d))) return;
  auto r = inverse(m); std::array<std::array<LD, N>, N> err{}; LD delta = ad * EPS * K / std::fabs(d);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { LD n = cof_ref<LD, N>(L, j, i), an = cof_ref<LD, N>(L, j, i, true), w = n / d; err[i][j] = an * EPS * K / std::fabs(d) * 2 + std::fabs(w) * (2 * delta + 4 * EPS); CK(std::fabs((LD)r[i][j] - w) <= err[i][j], "inverse: entry [" << i << "][" << j << "] is " << show(r[i][j]) << ", expected about " << show((double)w) << " within " << show((double)err[i][j])); }
  auto p = r * m, q = m * r; c.nontrivial();
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { LD e1 = 0, e2 = 0; for (size_t s = 0; s < N; ++s) { e1 += std::fabs((LD)L[i][s]) * (err[s][j] + std::fabs((LD)r[s][j]) * EPS * (N + 1)); e2 += std::fabs((LD)L[s][j]) * (err[i][s] + std::fabs((LD)r[i][s]) * EPS * (N + 1)); } LD id = i == j ? 1 : 0;
    CK(std::fabs((LD)p[i][j] - id) <= e1 + EPS, "inverse(M) * M: entry [" << i << "][" << j << "] is " << show(p[i][j])); CK(std::fabs((LD)q[i][j] - id) <= e2 + EPS, "M * inverse(M): entry [" << i << "][" << j << "] is " << show(q[i][j])); }
}
#define BYN(F) template <int> void F##_c(Case &c) { switch (c.below(3)) { case 0: F<2>(c); break; case 1: F<3>(c); break; default: F<4>(c); } }
BYN(det_int) BYN(det_mul) BYN(inv_int) BYN(inv_real)
#define NM(X) ((const char *)[] { static std::string s = std::string("C16.") + X + "." + tname<E>(); return s.c_str(); }())
PBT_PROP(NM("determinant"), 1, det_int_c<0>);
PBT_PROP(NM("determinant_product"), 0.3, det_mul_c<0>);
PBT_PROP(NM("inverse_integer"), 1, inv_int_c<0>);
PBT_PROP(NM("inverse_real"), 1, inv_real_c<0>);
template <class M> constexpr bool has_det = requires (const M &m) { determinant(m); }; template <class M> constexpr bool has_inv = requires (const M &m) { inverse(m); };
void table(Case &c) { [&]<size_t... S>(std::index_sequence<S...>) { ([&] { constexpr size_t C = S % 3 + 2, R = S / 3 + 2; constexpr bool a = has_det<basic_matrix<E, C, R>>, b = has_inv<basic_matrix<E, C, R>>; CK(a == (C == R) && b == (C == R), "determinant or inverse of a " << C << "x" << R << " matrix" << (a || b ? " compiles" : " does not compile")); }(), ...); }(std::make_index_sequence<9>{}); c.nontrivial(); }
PBT_PROP(NM("square_only"), 0.0005, table);
}
