// C23: add-on headers in examples/. PART 0: ordering, 1: hashing, 2: slices, spans, valarrays
#include "kinds.hpp"
#include <compare>
#include <stdexcept>
namespace x_ {
template <class T> const char *tn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, unsigned> ? "unsigned" : std::is_same_v<T, ll> ? "long long" : std::is_same_v<T, ull> ? "unsigned long long" : std::is_same_v<T, sz> ? "size_t" : std::is_same_v<T, float> ? "float" : "double"; }
template <bool B = false, class F> void each_type(Case &c, F f) { switch (c.below(B ? 7 : 6)) { case 0: f.template operator()<int>(); break; case 1: f.template operator()<float>(); break; case 2: f.template operator()<double>(); break; case 3: f.template operator()<unsigned>(); break; case 4: f.template operator()<ll>(); break; case 5: f.template operator()<ull>(); break; default: if constexpr (B) f.template operator()<bool>(); } }
template <class F> void each_size(Case &c, F f) { switch (c.below(4)) { case 0: f.template operator()<1>(); break; case 1: f.template operator()<2>(); break; case 2: f.template operator()<3>(); break; default: f.template operator()<4>(); } }
}
#if PART == 0
#include "compare.hxx"
using namespace dsga; using namespace x_;
namespace {
// one component pair: -1, 0, 1 in the order of the numbers; 2 if unordered
template <class T, class U> int cmp(T a, U b) {
  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) { __int128 x = a, y = b; return x < y ? -1 : x > y; }
  else { using C_ = std::common_type_t<T, U>; C_ x = (C_)a, y = (C_)b; return x != x || y != y ? 2 : x < y ? -1 : x > y; }
}
// known finding: pairs of signed integers whose difference overflows and equal infinities are ordered wrongly; they have a sub-property of their own
template <class T, class U> bool lossy(T a, U b) {
  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) { if constexpr (std::is_signed_v<T> && std::is_signed_v<U>) { using C_ = std::common_type_t<T, U>; C_ r; return __builtin_sub_overflow((C_)a, (C_)b, &r) || __builtin_sub_overflow((C_)b, (C_)a, &r); } else return false; }
  else { using C_ = std::common_type_t<T, U>; return std::isinf((C_)a) && (C_)a == (C_)b; }
}
template <class O> int num(O o) { return o == 0 ? 0 : o < 0 ? -1 : o > 0 ? 1 : 2; }
template <class T, class U> U near_value(Case &c, T a) {
  if (c.below(3) == 0) return gen_any<U>(c); if constexpr (std::is_floating_point_v<T>) if (a != a || std::fabs((double)a) > 1e9) { if constexpr (std::is_floating_point_v<U>) return (U)a; else return gen_any<U>(c); }
  U u = (U)a; if (c.coin()) { if constexpr (std::is_floating_point_v<U>) u = std::nextafter(u, c.coin() ? U(1e30) : U(-1e30)); else u = (U)((ull)u + (c.coin() ? 1 : -1)); } return u;
}
template <class T, class U, size_t N> void order(Case &c) {
  std::array<T, N> a = gen_arr_any<T, N>(c); std::array<U, N> b; for (size_t i = 0; i < N; ++i) { b[i] = near_value<T, U>(c, a[i]); if (lossy(a[i], b[i])) a[i] = T(1), b[i] = U(c.below(3)); } NOTE(c, tn<T>() << " " << show(a) << " and " << tn<U>() << " " << show(b));
  int want = 0; bool nan = false; std::array<int, N> q; for (size_t i = 0; i < N; ++i) { q[i] = cmp(a[i], b[i]); if (q[i] == 2) nan = true; } for (size_t i = N; i-- > 0;) if (q[i]) want = q[i]; if (nan) want = 2;
  with_pair(c, a, b, [&](auto &&x, const auto &mx, auto &&y, const auto &my) {
    for (size_t i = 0; i < N; ++i) if (lossy(mx[i], my[i])) return; // repeated letters pair other components
    int w = 0; bool nn = false; std::array<int, N> r; for (size_t i = 0; i < N; ++i) { r[i] = cmp(mx[i], my[i]); nn |= r[i] == 2; } for (size_t i = N; i-- > 0;) if (r[i]) w = r[i]; if (nn) w = 2;
    auto o = dsga::operator <=>(x, y); constexpr bool ty = std::is_same_v<decltype(o), std::conditional_t<std::is_integral_v<T> && std::is_integral_v<U>, std::strong_ordering, std::partial_ordering>>;
    CK(ty, "the ordering has the wrong category"); CK(num(o) == w, "x <=> y is " << num(o) << ", expected " << w); auto back = dsga::operator <=>(y, x); CK(num(back) == (w == 2 ? 2 : -w), "y <=> x is " << num(back) << " but x <=> y is " << num(o));
    // weights: a permutation of the default ones orders by another priority; negative ones reverse a component
    std::array<size_t, 4> perm{0, 1, 2, 3}; for (size_t i = N; i > 1; --i) std::swap(perm[i - 1], perm[c.below(i)]); int base[]{27, 9, 3, 1}; std::array<int, N> sg; std::array<int, N> wt; for (size_t i = 0; i < N; ++i) { sg[i] = c.coin() ? 1 : -1; wt[perm[i]] = 0; } for (size_t i = 0; i < N; ++i) wt[perm[i]] = sg[perm[i]] * base[4 - N + i];
    int pw = 0; for (size_t i = N; i-- > 0;) if (r[perm[i]]) pw = r[perm[i]] * sg[perm[i]]; if (nn) pw = 2; basic_vector<int, N> wv{}; for (size_t i = 0; i < N; ++i) wv[i] = wt[i];
    auto p = weighted_compare(x, y, wv); CK(num(p) == pw, "weighted_compare with weights " << show(wt) << " is " << num(p) << ", expected " << pw);
    if (!c.coin()) return; ll sum = 0; basic_vector<ll, N> any{}; std::array<ll, N> aw; for (size_t i = 0; i < N; ++i) { aw[i] = c.range(-5, 5); any[i] = aw[i]; if (r[i] != 2) sum += aw[i] * r[i]; } int aws = nn ? 2 : sum < 0 ? -1 : sum > 0; auto g = weighted_compare(x, y, any); CK(num(g) == aws, "weighted_compare with weights " << show(aw) << " is " << num(g) << ", expected " << aws);
  });
  int eqs = 0; for (int v : q) eqs += v == 0; c.nontrivial(eqs && eqs < (int)N || (N == 1 && q[0]));
}
void orders(Case &c) {
  auto go = [&]<class T, class U>() { each_size(c, [&]<size_t N>() { order<T, U, N>(c); }); };
  switch (c.below(14)) {
#define P_(k, T, U) case k: go.template operator()<T, U>(); break;
    P_(0, int, int) P_(1, float, float) P_(2, double, double) P_(3, unsigned, unsigned) P_(4, ll, ll) P_(5, ull, ull) P_(6, int, unsigned) P_(7, ull, int) P_(8, unsigned, ll) P_(9, float, double) P_(10, double, int) P_(11, ull, float) P_(12, int, ll) P_(13, ll, ull)
  }
}
template <class T, class U, size_t C, size_t R> void mat_order(Case &c) {
  basic_matrix<T, C, R> m{}; basic_matrix<U, C, R> n{}; int want = 0; bool done = false;
  for (size_t i = 0; i < C; ++i) { int col = 0; bool nan = false; for (size_t j = 0; j < R; ++j) { T a = c.below(4) ? gen_small<T>(c, 3) : gen_any<T>(c); U b = c.below(5) ? (U)a : near_value<T, U>(c, a); if (lossy(a, b)) a = T(1), b = U(c.below(3)); m[i][j] = a; n[i][j] = b; NOTE(c, "  " << i << "," << j << ": " << show(a) << " / " << show(b)); int k = cmp(a, b); if (k == 2) nan = true; else if (!col) col = k; } if (nan) col = 2; if (!done && col) { want = col; done = true; } }
  auto o = m <=> n; CK(num(o) == want, "matrix <=> is " << num(o) << ", expected " << want); c.nontrivial(want != 0);
}
void mat_orders(Case &c) { auto go = [&]<class T, class U>() { switch (c.below(4)) { case 0: mat_order<T, U, 2, 2>(c); break; case 1: mat_order<T, U, 2, 4>(c); break; case 2: mat_order<T, U, 3, 2>(c); break; default: mat_order<T, U, 4, 3>(c); } }; switch (c.below(3)) { case 0: go.template operator()<float, float>(); break; case 1: go.template operator()<double, float>(); break; default: go.template operator()<double, double>(); } }
// sorting by it sorts lexicographically
void sorting(Case &c) {
  auto go = [&]<class T, size_t N>() { int n = 1 + (int)c.below(12); std::vector<basic_vector<T, N>> v; std::vector<std::array<T, N>> m; for (int i = 0; i < n; ++i) { std::array<T, N> a; for (auto &x : a) { x = c.coin() ? gen_small<T>(c, 2) : gen_finite<T>(c); if constexpr (std::is_signed_v<T> && std::is_integral_v<T>) x /= 2; if (x == T(0)) x = T(0); } basic_vector<T, N> e{}; for (size_t j = 0; j < N; ++j) e[j] = a[j]; v.push_back(e); m.push_back(a); }
    NOTE(c, n << " vectors of " << N << " " << tn<T>()); std::sort(v.begin(), v.end(), [](const auto &a, const auto &b) { return (a <=> b) < 0; }); std::sort(m.begin(), m.end()); for (int i = 0; i < n; ++i) for (size_t j = 0; j < N; ++j) CK(v[i][j] == m[i][j], "sorted element " << i << " component " << j << " is " << show(T(v[i][j])) << ", expected " << show(m[i][j])); c.nontrivial(n > 2); };
  switch (c.below(5)) { case 0: go.template operator()<int, 2>(); break; case 1: go.template operator()<double, 3>(); break; case 2: go.template operator()<ull, 4>(); break; case 3: go.template operator()<float, 2>(); break; default: go.template operator()<ll, 3>(); }
}
// the pairs kept out of the others
template <class T> void lossy_order(Case &c) {
  T a, b; if constexpr (std::is_integral_v<T>) { constexpr T mx = std::numeric_limits<T>::max(); a = mx - (T)c.below(5); b = -2 - (T)c.below(5); if (c.coin()) std::swap(a, b); } else { a = b = c.coin() ? T(INFINITY) : T(-INFINITY); }
  NOTE(c, tn<T>() << " " << show(a) << " and " << show(b)); basic_vector<T, 2> x(T(3), a), y(T(3), b); auto o = dsga::operator <=>(x, y); int k = num(o), w = cmp(a, b); c.nontrivial();
  if constexpr (std::is_integral_v<T>) CK(k == w, "signed integers whose difference overflows are ordered wrongly"); else CK(k == w, "equal infinities are not equivalent");
}
void lossy_ints(Case &c) { if (c.coin()) lossy_order<int>(c); else lossy_order<ll>(c); } void lossy_floats(Case &c) { if (c.coin()) lossy_order<float>(c); else lossy_order<double>(c); }
PBT_PROP("C23.order_of_overflowing_differences", 0.2, lossy_ints); PBT_PROP("C23.order_of_equal_infinities", 0.2, lossy_floats);
PBT_PROP("C23.order", 3, orders); PBT_PROP("C23.matrix_order", 1, mat_orders); PBT_PROP("C23.sort", 1, sorting);
}
#endif
#if PART == 1
#include "hash.hxx"
#include <unordered_set>
#include <unordered_map>
using namespace dsga; using namespace x_;
namespace {
template <class V> sz h(const V &v) { return std::hash<V>{}(v); }
// the hash depends on the elements alone: equal objects of every kind have equal hashes
template <class T, size_t N> void hashes(Case &c) {
  std::array<T, N> a; for (auto &x : a) { x = c.below(3) ? gen_finite<T>(c) : gen_small<T>(c, 2); if constexpr (std::is_floating_point_v<T>) if (c.below(4) == 0) x = c.coin() ? T(0) : -T(0); }
  std::array<T, N> b = a; bool zero = false; if constexpr (std::is_floating_point_v<T>) for (auto &x : b) if (x == 0 && c.coin()) { x = -x; zero = true; } NOTE(c, tn<T>() << " " << show(a) << (zero ? ", other zeros" : ""));
  with_pair(c, a, b, [&](auto &&x, const auto &mx, auto &&y, const auto &my) {
    bool eq = true; for (size_t i = 0; i < N; ++i) eq = eq && mx[i] == my[i]; basic_vector<T, N> vx{}; for (size_t i = 0; i < N; ++i) vx[i] = mx[i];
    CK(h(x) == h(vx), "an object and a vector with its elements have different hashes"); CK(h(x) == h(x), "the hash is not repeatable"); if (eq) CK(h(x) == h(y), "equal objects have different hashes"); if (eq && bool(x == y) != true) CK(false, "equal elements compare different"); });
  basic_vector<T, N> v{}; for (size_t i = 0; i < N; ++i) v[i] = a[i]; storage_wrapper<true, T, N> sw{}; for (size_t i = 0; i < N; ++i) sw[i] = b[i]; std::array<T, N> d = b; view_wrapper<false, T, N> vw(d.data()); view_vector<T, N> vv(v); basic_view<false, T, N> rv(d.data());
  CK(h(sw) == h(v) && h(vw) == h(v) && h(vv) == h(v) && h(rv) == h(v), "wrapper hashes differ: " << h(v) << ", " << h(sw) << ", " << h(vw) << ", " << h(vv) << ", " << h(rv));
  if constexpr (N > 1) { std::array<T, N> p = a; std::swap(p[0], p[N - 1]); if (!(p[0] == p[N - 1])) { basic_vector<T, N> q{}; for (size_t i = 0; i < N; ++i) q[i] = p[i]; if (h(q) == h(v)) { std::array<T, N> p2 = a; p2[0] = T(p2[0] == T(0)); basic_vector<T, N> q2{}; for (size_t i = 0; i < N; ++i) q2[i] = p2[i]; CK(h(q2) != h(v), "the hash ignores order and values"); } } }
  c.nontrivial(N > 1 && all_distinct(a));
}
void vec_hash(Case &c) { each_type<true>(c, [&]<class T>() { each_size(c, [&]<size_t N>() { hashes<T, N>(c); }); }); }
void mat_hash(Case &c) {
  auto go = [&]<class T, size_t C, size_t R>() { basic_matrix<T, C, R> m{}, n{}; for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { T x = c.coin() ? gen_finite<T>(c) : gen_small<T>(c, 2); m[i][j] = x; n[i][j] = x == 0 && c.coin() ? -x : x; } CK(m == n && h(m) == h(n), "equal matrices have different hashes"); basic_matrix<T, C, R> k(m); CK(h(k) == h(m), "a copy has another hash"); c.nontrivial(); };
  switch (c.below(4)) { case 0: go.template operator()<float, 2, 2>(); break; case 1: go.template operator()<double, 3, 4>(); break; case 2: go.template operator()<float, 4, 2>(); break; default: go.template operator()<double, 4, 4>(); }
}
// an unordered map keyed by vectors behaves like a list of pairs
template <class T, size_t N> void map_history(Case &c) {
  std::unordered_map<basic_vector<T, N>, int> s; std::vector<std::pair<std::array<T, N>, int>> m; int steps = 1 + (int)c.below(20); std::vector<std::array<T, N>> pool; for (int i = 0; i < 4; ++i) { std::array<T, N> a; for (auto &x : a) x = c.coin() ? gen_small<T>(c, 1) : gen_finite<T>(c); pool.push_back(a); }
  for (int t = 0; t < steps; ++t) {
    std::array<T, N> k = pool[c.below(4)]; if (c.coin()) k[c.below(N)] = c.coin() ? T(0) : T(1); if constexpr (std::is_floating_point_v<T>) for (auto &x : k) if (x == 0 && c.coin()) x = -x; basic_vector<T, N> v{}; for (size_t i = 0; i < N; ++i) v[i] = k[i]; auto it = std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; });
    switch (c.below(3)) { case 0: NOTE(c, "insert " << show(k)); s[v] = t; if (it == m.end()) m.push_back({k, t}); else it->second = t; break; case 1: { NOTE(c, "erase " << show(k)); sz n = s.erase(v); CK(n == (it != m.end()), "erase removed " << n); if (it != m.end()) m.erase(it); break; } default: { NOTE(c, "find " << show(k)); auto f = s.find(v); CK((f != s.end()) == (it != m.end()), "find " << (f != s.end() ? "found a missing key" : "missed a key")); if (f != s.end()) CK(f->second == it->second, "wrong value found"); } }
    CK(s.size() == m.size(), "size is " << s.size() << ", expected " << m.size());
  }
  c.nontrivial(steps > 3);
}
void maps(Case &c) { switch (c.below(5)) { case 0: map_history<int, 3>(c); break; case 1: map_history<float, 2>(c); break; case 2: map_history<double, 4>(c); break; case 3: map_history<ull, 1>(c); break; default: map_history<bool, 3>(c); } }
PBT_PROP("C23.hash", 2, vec_hash); PBT_PROP("C23.matrix_hash", 0.5, mat_hash); PBT_PROP("C23.map", 1, maps);
}
#endif
#if PART == 2
#include "slice.hxx"
#include "span_convert.hxx"
#include "valarray_convert.hxx"
using namespace dsga; using namespace x_;
namespace {
// a slice is a view of the elements it names, and one that leaves the object is stopped
template <class T, size_t N, size_t L> void slices(Case &c) {
  std::array<T, N> m = gen_arr_small<T, N>(c); sz off; switch (c.below(3)) { case 0: off = c.below(N - L + 1); break; case 1: off = c.below(N + 3); break; default: { sz b[] = {~(sz)0, ~(sz)0 - 1, (sz)0 - L, (sz)1 << 63, (sz)1 << 32}; off = b[c.below(5)]; } }
  bool ok = off < N && off + L <= N; int how = (int)c.below(7); NOTE(c, "slice<" << L << "> of " << N << " " << tn<T>() << " at " << off << ", container " << how); T arr[N + 2]; arr[0] = arr[N + 1] = T(1); for (size_t i = 0; i < N; ++i) arr[i + 1] = m[i];
  auto run = [&]<bool W>(auto &obj, auto &&elem) {
    bool st = false, threw = false; st = aborts([&] { try { auto s = slice<L>(obj, off); constexpr bool ty = std::is_same_v<decltype(s), basic_view<W, T, L>>; if (!ty) throw pbt::Failure{"the slice has the wrong type"}; if (!ok) return;
      for (size_t i = 0; i < L; ++i) if (!same(T(s[i]), m[off + i])) throw pbt::Failure{"the slice shows other elements"}; T nv = m[off] == T(0) ? T(1) : T(0); elem(off + L - 1) = nv; if (!same(T(s[L - 1]), nv)) throw pbt::Failure{"the slice does not follow the object"};
      if constexpr (W) { T old = T(s[0]), nw = old == T(0) ? T(1) : T(0); s[0] = nw; if (!same(T(elem(off)), nw)) throw pbt::Failure{"a write through the slice is lost"}; } } catch (const std::out_of_range &) { threw = true; } });
    CK((st || threw) == !ok, "slice " << (ok ? "was refused although it is inside" : "outside the object was not detected")); };
  basic_vector<T, N> v{}; for (size_t i = 0; i < N; ++i) v[i] = m[i]; view_vector<T, N> vv(v); basic_view<true, T, N> w(arr + 1); basic_view<false, T, N> r(arr + 1); auto va = [&](sz i) -> T & { return v[i]; }; auto oa = [&](sz i) -> T & { return vv[i]; }; auto aa = [&](sz i) -> T & { return arr[i + 1]; };
  switch (how) { case 0: run.template operator()<true>(v, va); break; case 1: run.template operator()<false>(std::as_const(v), va); break; case 2: run.template operator()<true>(vv, oa); break; case 3: run.template operator()<false>(std::as_const(vv), oa); break;
    case 4: run.template operator()<true>(w, aa); break; case 5: run.template operator()<false>(r, aa); break; default: run.template operator()<false>(std::as_const(w), aa); }
  CK(arr[0] == T(1) && arr[N + 1] == T(1), "memory next to the object changed"); c.nontrivial(L < N);
}
void slicing(Case &c) { each_type<true>(c, [&]<class T>() { switch (c.below(10)) {
#define S_(k, N, L) case k: slices<T, N, L>(c); break;
  S_(0, 1, 1) S_(1, 2, 1) S_(2, 2, 2) S_(3, 3, 1) S_(4, 3, 2) S_(5, 3, 3) S_(6, 4, 1) S_(7, 4, 2) S_(8, 4, 3) S_(9, 4, 4) } }); }
// copies between vectors and spans or valarrays take the shorter length and convert each element
template <class T, class U, size_t N, size_t E> void span_copy(Case &c) {
  std::array<T, N> m = gen_arr_small<T, N>(c); std::array<U, E + 2> s; for (auto &x : s) x = gen_small<U>(c); std::array<U, E + 2> s0 = s; basic_vector<T, N> v{}; for (size_t i = 0; i < N; ++i) v[i] = m[i]; sz dn = c.below(E + 1), n = std::min<sz>(N, E), nd = std::min<sz>(N, dn); int how = (int)c.below(9);
  NOTE(c, N << " " << tn<T>() << " " << show(m) << ", " << E << " " << tn<U>() << " " << show(s) << ", form " << how << ", dynamic length " << dn); std::span<U, E> fx(s.data() + 1, E); std::span<const U, E> cfx(s.data() + 1, E); std::span<U> dy(s.data() + 1, dn); std::span<const U> cdy(s.data() + 1, dn);
  std::array<T, N> wv = m; std::array<U, E + 2> ws = s; auto into = [&](sz k) { for (size_t i = 0; i < k; ++i) wv[i] = static_cast<T>(s0[i + 1]); }; auto from = [&](sz k) { for (size_t i = 0; i < k; ++i) ws[i + 1] = static_cast<U>(m[i]); };
  switch (how) { case 0: copy_to_vector(v, fx); into(n); break; case 1: copy_to_vector(v, cfx); into(n); break; case 2: copy_to_vector(v, dy); into(nd); break; case 3: copy_to_vector(v, cdy); into(nd); break; case 4: copy_from_vector(fx, std::as_const(v)); from(n); break; case 5: copy_from_vector(dy, v); from(nd); break;
    case 6: { std::valarray<U> va(s.data() + 1, dn); copy_to_vector(v, va); into(nd); break; } case 7: { std::valarray<U> va(s.data() + 1, dn); copy_from_vector(va, v); from(nd); CK(va.size() == dn, "the valarray has another length"); for (sz i = 0; i < dn; ++i) s[i + 1] = va[i]; break; }
    default: { auto va = to_valarray(v); constexpr bool ty = std::is_same_v<decltype(va), std::valarray<T>>; CK(ty && va.size() == N, "to_valarray has the wrong type or length"); for (size_t i = 0; i < N; ++i) CK(same(T(va[i]), m[i]), "to_valarray element " << i << " is wrong"); } }
  for (size_t i = 0; i < N; ++i) CK(same(T(v[i]), wv[i]), "vector component " << i << " is " << show(T(v[i])) << ", expected " << show(wv[i])); for (size_t i = 0; i < E + 2; ++i) CK(same(s[i], ws[i]), "span element " << (int)i - 1 << " is " << show(s[i]) << ", expected " << show(ws[i])); c.nontrivial(N != E);
}
void span_copies(Case &c) {
  auto go = [&]<class T, class U>() { switch (c.below(6)) { case 0: span_copy<T, U, 1, 3>(c); break; case 1: span_copy<T, U, 2, 2>(c); break; case 2: span_copy<T, U, 3, 2>(c); break; case 3: span_copy<T, U, 3, 5>(c); break; case 4: span_copy<T, U, 4, 1>(c); break; default: span_copy<T, U, 4, 4>(c); } };
  switch (c.below(7)) { case 0: go.template operator()<int, int>(); break; case 1: go.template operator()<float, double>(); break; case 2: go.template operator()<double, int>(); break; case 3: go.template operator()<int, float>(); break; case 4: go.template operator()<ull, unsigned>(); break; case 5: go.template operator()<ll, float>(); break; default: go.template operator()<double, double>(); }
}
// spans of vectors and matrices show their elements; vectors and matrices made from spans have them
template <class T> void span_make(Case &c) {
  each_size(c, [&]<size_t N>() { std::array<T, N> m = gen_arr_any<T, N>(c); basic_vector<T, N> v{}; for (size_t i = 0; i < N; ++i) v[i] = m[i]; const auto &cv = v; auto s = make_span(v); auto cs = make_span(cv); auto ks = make_const_span(v); NOTE(c, tn<T>() << " " << show(m));
    constexpr bool ty = std::is_same_v<decltype(s), std::span<T, N>> && std::is_same_v<decltype(cs), std::span<const T, N>> && std::is_same_v<decltype(ks), std::span<const T, N>>; CK(ty, "a span has the wrong type"); CK(s.size() == N, "the span has the wrong length");
    for (size_t i = 0; i < N; ++i) CK(same(s[i], m[i]) && same(cs[i], m[i]) && same(ks[i], m[i]), "span element " << i << " differs"); sz k = c.below(N); T x = m[k] == T(0) ? T(1) : T(0); s[k] = x; CK(same(T(v[k]), x) && same(cs[k], x), "a write through the span is lost"); v[k] = m[k]; CK(same(s[k], m[k]), "the span does not follow the vector");
    std::array<T, 6> big; for (auto &e : big) e = gen_any<T>(c); std::span<T, 6> bs(big); std::span<const T, 6> cb(big); auto v1 = make_vector(bs, std::index_sequence<5>{}); auto v2 = make_vector(cb, std::index_sequence<3, 3>{}); auto v3 = make_vector(bs, make_index_range<1, 4>{}); auto v4 = make_vector(cb, std::index_sequence<5, 0, 2, 4>{});
    CK(same(T(v1[0]), big[5]) && same(T(v2[0]), big[3]) && same(T(v2[1]), big[3]), "make_vector"); for (int i = 0; i < 3; ++i) CK(same(T(v3[i]), big[1 + i]), "make_vector of a range, component " << i); int ix[]{5, 0, 2, 4}; for (int i = 0; i < 4; ++i) CK(same(T(v4[i]), big[ix[i]]), "make_vector, component " << i);
    constexpr bool tv = std::is_same_v<decltype(v4), basic_vector<T, 4>>; CK(tv, "make_vector has the wrong type"); c.nontrivial(all_distinct(m)); });
}
template <class T, size_t C, size_t R> void mat_span(Case &c) {
  std::array<T, C * R + 3> big; for (auto &e : big) e = gen_any<T>(c); std::span<T, C * R + 3> bs(big); std::span<const T, C * R> ex(big.data(), C * R); auto m = make_matrix<C, R>(bs); auto k = make_matrix<C, R>(ex); constexpr bool ty = std::is_same_v<decltype(m), basic_matrix<T, C, R>> && std::is_same_v<decltype(k), basic_matrix<T, C, R>>; CK(ty, "make_matrix has the wrong type");
  for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) CK(same(T(m[i][j]), big[i * R + j]) && same(T(k[i][j]), big[i * R + j]), "make_matrix column " << i << " row " << j); auto s = make_span(m); auto cs = make_const_span(std::as_const(m)); auto cs2 = make_span(std::as_const(m)); CK(s.size() == C && cs.size() == C, "span length");
  for (size_t i = 0; i < C; ++i) CK(&s[i] == &m[i] && &cs[i] == &std::as_const(m)[i] && &cs2[i] == &std::as_const(m)[i], "the span shows other columns"); c.nontrivial();
}
void mat_spans(Case &c) { auto go = [&]<class T>() { switch (c.below(4)) { case 0: mat_span<T, 2, 2>(c); break; case 1: mat_span<T, 2, 4>(c); break; case 2: mat_span<T, 3, 2>(c); break; default: mat_span<T, 4, 4>(c); } }; if (c.coin()) go.template operator()<float>(); else go.template operator()<double>(); }
void span_makes(Case &c) { each_type<true>(c, [&]<class T>() { span_make<T>(c); }); }
template <class V> concept can_span = requires(V &&v) { make_span(std::forward<V>(v)); }; template <class V> concept can_slice = requires(V &&v) { slice<1>(std::forward<V>(v), 0); }; template <sz L, class V> concept can_len = requires(V &v) { slice<L>(v, 0); };
void refusals(Case &c) { c.below(1); bool a = can_span<ivec3>, b = can_span<const ivec3>, d = can_span<ivec3 &>, e = can_slice<ivec3>, f = can_slice<ivec3 &>, g = can_slice<iview3>, k = can_len<4, ivec3>, l = can_len<0, ivec3>, m = can_len<3, ivec3>, n = can_span<mat3>, o = can_span<mat3 &>, p = can_slice<view_vector<int, 3>>;
  CK(!a && !b && !n, "a span of a temporary is accepted"); CK(d && o && f && m, "a span or slice of an object is refused"); CK(!e && !g && !p, "a slice of a temporary is accepted"); CK(!k && !l, "a slice of impossible length is accepted"); c.nontrivial(); }
PBT_PROP("C23.slice", 2, slicing); PBT_PROP("C23.span_copy", 2, span_copies); PBT_PROP("C23.span", 1, span_makes); PBT_PROP("C23.matrix_span", 0.5, mat_spans); PBT_PROP("C23.refuse", 0.05, refusals);
}
#endif
