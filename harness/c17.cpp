// C17: shift, cshift, apply, query, min, max, sum of every kind. PART 0..7: element types.
#include "kinds.hpp"
namespace {
using namespace dsga;
using T = std::tuple_element_t<PART, std::tuple<int, unsigned, ll, ull, sz, float, double, bool>>;
constexpr bool BOOL = std::is_same_v<T, bool>, FLT = std::is_floating_point_v<T>;
int gen_by(Case &c, int n) {
  switch (c.below(6)) { case 0: case 1: return (int)c.range(-n - 1, n + 1); case 2: return (int)c.range(-40, 40); case 3: { int b[] = {INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, INT_MIN / 2, INT_MAX / 2, 1 << 30, -(1 << 30)}; return b[c.below(8)] + (int)c.below(1); }
    case 4: { ll v = (c.coin() ? 1ll : -1ll) * (ll)(1ull << c.below(31)) + c.range(-4, 4); return (int)std::clamp<ll>(v, INT_MIN, INT_MAX); } default: return (int)(int32_t)(uint32_t)c.below(1ull << 32); }
}
template <size_t N> std::array<T, N> gen_vals(Case &c) { std::array<T, N> m; bool small = c.coin(); for (auto &x : m) x = small ? gen_small<T>(c, 9) : gen_any<T>(c); return m; }
template <size_t N> void vec_is(const basic_vector<T, N> &r, const std::array<T, N> &w, const char *what) { for (size_t i = 0; i < N; ++i) CK(same(r[i], w[i]), what << ": component " << i << " is " << show(r[i]) << ", expected " << show(w[i])); }

template <size_t N> void shift_n(Case &c) {
  auto m = gen_vals<N>(c); int by = gen_by(c, (int)N), by2 = gen_by(c, (int)N); NOTE(c, "shift of " << show(m) << " of " << tname<T>() << " by " << by << ", then " << by2);
  with_kind<T, N>(c, m, [&](auto &v, const auto &mm) {
    auto ref = [](const std::array<T, N> &a, ll n, bool circ) { std::array<T, N> r{}; for (ll i = 0; i < (ll)N; ++i) { ll j = i + n; if (circ) j = ((j % (ll)N) + (ll)N) % (ll)N; r[(size_t)i] = j >= 0 && j < (ll)N ? a[(size_t)j] : T(0); } return r; };
    auto &cv = std::as_const(v); auto s = v.shift(by), sc = cv.shift(by), r = v.cshift(by), rc = cv.cshift(by);
    constexpr bool ty = std::is_same_v<decltype(s), basic_vector<T, N>> && std::is_same_v<decltype(r), basic_vector<T, N>>; CK(ty, "type of the result");
    auto ws = ref(mm, by, false), wr = ref(mm, by, true); vec_is<N>(s, ws, "shift"); vec_is<N>(sc, ws, "shift (const)"); vec_is<N>(r, wr, "cshift"); vec_is<N>(rc, wr, "cshift (const)");
    for (size_t i = 0; i < N; ++i) CK(same(T(v[i]), mm[i]), "the source changed");
    vec_is<N>(s.shift(by2), ref(ws, by2, false), "shift of a shift"); vec_is<N>(r.cshift(by2), ref(wr, by2, true), "cshift of a cshift"); if (by != INT_MIN) vec_is<N>(r.cshift(-by), mm, "cshift back");
    s[0] = T(1); r[0] = T(0); for (size_t i = 0; i < N; ++i) CK(same(T(v[i]), mm[i]), "changing the result changed the source");
  }); c.nontrivial(N > 1 && by % (int)N != 0);
}
void shifts(Case &c) { switch (c.below(4)) { case 0: shift_n<1>(c); break; case 1: shift_n<2>(c); break; case 2: shift_n<3>(c); break; default: shift_n<4>(c); } }

T fn_val(T x) { return BOOL ? T(!x) : T(x / T(2)); }
T fn_ref(const T &x) { return BOOL ? T(!x) : T(x / T(2)); }
bool fn_pred(T x) { return x > T(0); }
template <size_t N> void apply_n(Case &c) {
  auto m = gen_vals<N>(c); int form = (int)c.below(8); NOTE(c, "apply / query of " << show(m) << " of " << tname<T>() << ", callable " << form);
  with_kind<T, N>(c, m, [&](auto &v, const auto &mm) {
    auto &cv = std::as_const(v); std::vector<T> log; std::array<T, N> w{}; std::array<bool, N> wq{}; unsigned n = 0;
    auto hash = [](T x, unsigned k) { return T((unsigned)(same(x, T(1)) ? 3 : same(x, T(0)) ? 5 : 7) * 11 + k * 13 % 101 + (FLT ? 0 : 1)); };
    switch (form) {
      case 0: { auto r = cv.apply([&](T x) { log.push_back(x); return hash(x, n++); }); for (size_t i = 0; i < N; ++i) w[i] = hash(mm[i], (unsigned)i); vec_is<N>(r, w, "apply with a stateful callable by value"); break; }
      case 1: { auto r = v.apply([&](const T &x) -> T { log.push_back(x); return hash(x, n++); }); for (size_t i = 0; i < N; ++i) w[i] = hash(mm[i], (unsigned)i); vec_is<N>(r, w, "apply with a stateful callable by reference"); break; }
      case 2: { auto r = cv.apply(fn_val); for (size_t i = 0; i < N; ++i) { w[i] = fn_val(mm[i]); log.push_back(mm[i]); } vec_is<N>(r, w, "apply with a function"); break; }
      case 3: { auto r = v.apply(fn_ref); for (size_t i = 0; i < N; ++i) { w[i] = fn_val(mm[i]); log.push_back(mm[i]); } vec_is<N>(r, w, "apply with a function of a reference"); break; }
      case 4: { auto r = cv.apply([&, k = 0u](T x) mutable { log.push_back(x); return hash(x, k++); }); for (size_t i = 0; i < N; ++i) w[i] = hash(mm[i], (unsigned)i); vec_is<N>(r, w, "apply with a mutable callable"); break; }
      case 5: { auto r = cv.query([&](T x) { log.push_back(x); return (n++ % 2 == 0) != (x > T(0)); }); constexpr bool ty = std::is_same_v<decltype(r), basic_vector<bool, N>>; CK(ty, "type of query"); for (size_t i = 0; i < N; ++i) { wq[i] = (i % 2 == 0) != (mm[i] > T(0)); CK(r[i] == wq[i], "query: component " << i); } break; }
      case 6: { auto r = v.query([&](const T &x) { log.push_back(x); return (n++ % 3 == 0) != (x > T(0)); }); for (size_t i = 0; i < N; ++i) { wq[i] = (i % 3 == 0) != (mm[i] > T(0)); CK(r[i] == wq[i], "query: component " << i); } break; }
      case 7: { auto r = cv.query(fn_pred); for (size_t i = 0; i < N; ++i) { log.push_back(mm[i]); CK(r[i] == fn_pred(mm[i]), "query with a function: component " << i); } break; }
    }
    CK(log.size() == N, "the callable was called " << log.size() << " times for " << N << " elements"); for (size_t i = 0; i < N; ++i) { CK(same(T(log[i]), mm[i]), "call " << i << " got " << show(log[i]) << ", expected element " << i << ", " << show(mm[i])); CK(same(T(v[i]), mm[i]), "the source changed"); }
  }); c.nontrivial(all_distinct(m) || BOOL);
}
void applies(Case &c) { switch (c.below(4)) { case 0: apply_n<1>(c); break; case 1: apply_n<2>(c); break; case 2: apply_n<3>(c); break; default: apply_n<4>(c); } }

#if PART < 7
template <size_t N> void reduce_n(Case &c) {
  int mode = (int)c.below(3); std::array<T, N> m; for (auto &x : m) { x = mode == 0 ? gen_small<T>(c, 9) : gen_any<T>(c); if constexpr (FLT) { if (x != x) x = T(3); } } if (mode == 2) { size_t i = c.below(N), j = c.below(N); m[i] = m[j]; if constexpr (FLT) if (c.coin()) m[i] = std::nextafter(m[i], T(0)); }
  NOTE(c, "min, max, sum of " << show(m) << " of " << tname<T>());
  with_kind<T, N>(c, m, [&](auto &v, const auto &mm) {
    auto &cv = std::as_const(v); T lo = mm[0], hi = mm[0]; for (auto x : mm) { if (x < lo) lo = x; if (x > hi) hi = x; }
    constexpr bool ty = std::is_same_v<decltype(v.min()), T> && std::is_same_v<decltype(cv.max()), T> && std::is_same_v<decltype(cv.sum()), T>; CK(ty, "type of the result");
    CK(numeq(v.min(), lo) && numeq(cv.min(), lo), "min is " << show(v.min()) << ", expected " << show(lo)); CK(numeq(v.max(), hi) && numeq(cv.max(), hi), "max is " << show(v.max()) << ", expected " << show(hi));
    if constexpr (std::is_unsigned_v<T>) { T s = 0; for (auto x : mm) s += x; CK(v.sum() == s && cv.sum() == s, "sum is " << v.sum() << ", expected " << s); }
    else if constexpr (!FLT) { __int128 s = 0, suf = 0; bool ok = true; for (auto x : mm) { s += x; ok &= s >= std::numeric_limits<T>::min() && s <= std::numeric_limits<T>::max(); } for (size_t i = N; i-- > 0;) { suf += mm[i]; ok &= suf >= std::numeric_limits<T>::min() && suf <= std::numeric_limits<T>::max(); } if (ok) CK(v.sum() == (T)s && cv.sum() == (T)s, "sum is " << v.sum() << ", expected " << (T)s); }
    else { long double s = 0, ab = 0; long double abf = 0; bool fin = true; for (auto x : mm) { s += x; if (std::isfinite(x)) abf += std::fabs((long double)x); ab += std::fabs((long double)x); fin &= std::isfinite(x); } T g = cv.sum(); long double lim = ab * (long double)std::numeric_limits<T>::epsilon() * N;
      if (fin && ab < std::numeric_limits<T>::max()) CK(std::fabs((long double)g - s) <= lim && same(g, T(v.sum())), "sum is " << show(g) << ", expected about " << (double)s); else if (!fin && !(s != s) && abf < std::numeric_limits<T>::max()) CK(g == (T)s, "sum with infinities is " << show(g));
      if (mode == 0) { bool exact = true; for (auto x : mm) exact &= x * 4 == std::trunc(x * 4) && std::fabs(x) < 1000; if (exact) CK(g == (T)s, "sum of small values is not exact"); } }
    for (size_t i = 0; i < N; ++i) CK(same(T(v[i]), mm[i]), "the source changed");
  }); c.nontrivial(N > 1 && (mode == 2 || all_distinct(m)));
}
void reductions(Case &c) { switch (c.below(4)) { case 0: reduce_n<1>(c); break; case 1: reduce_n<2>(c); break; case 2: reduce_n<3>(c); break; default: reduce_n<4>(c); } }
#endif
#define NM(X) ((const char *)[] { static std::string s = std::string("C17.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("shift"), 1, shifts);
PBT_PROP(NM("apply"), 1, applies);
#if PART < 7
PBT_PROP(NM("reduce"), 1, reductions);
#endif
}
