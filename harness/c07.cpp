// C07: every way of accessing the elements agrees; iterator laws; algorithms against a plain array. PART selects the element type.
#include "kinds.hpp"
#include <algorithm>
#include <numeric>
#include <ranges>
#include <iterator>
using namespace dsga;
namespace {
using T = std::tuple_element_t<PART, std::tuple<bool, int, unsigned, ll, ull, sz, float, double>>;
#define EQ(a, b, what) CK(same(T(a), T(b)), what << " gives " << show(T(a)) << ", expected " << show(T(b)))
T gen(Case &c) { return c.chance(1, 4) ? gen_finite<T>(c) : gen_small<T>(c, 6); }
template <class V> constexpr bool writable_v = requires(V &v) { v[0] = T(); };

// read element by element through every path of a (possibly const) object
template <size_t N, class V, class M> void read_all(V &v, const M &m) {
  for (size_t i = 0; i < N; ++i) {
    EQ(v[i], m[i], "[size_t " << i << "]"); EQ(v[(int)i], m[i], "[int " << i << "]"); EQ(v[(unsigned)i], m[i], "[unsigned " << i << "]"); EQ(v[(ll)i], m[i], "[long long " << i << "]"); EQ(v[(unsigned char)i], m[i], "[unsigned char " << i << "]");
    basic_vector<int, 1> ix((int)i); EQ(v[ix], m[i], "[one-component vector " << i << "]");
    EQ(v.data()[V::offsets[i]], m[i], "data()[offsets[" << i << "]]");
  }
  [&]<size_t... O>(std::index_sequence<O...>) { CK(sizeof...(O) == N, "sequence() has the wrong length"); size_t off[]{O...}; for (size_t i = 0; i < N; ++i) EQ(v.data()[off[i]], m[i], "data()[sequence() " << i << "]"); }(v.sequence());
  [&]<size_t... I>(std::index_sequence<I...>) { ((void)[&] { EQ(get<I>(v), m[I], "get<" << I << ">"); EQ(get<I>(std::move(v)), m[I], "get<" << I << "> of an rvalue"); EQ(get<I>(std::move(std::as_const(v))), m[I], "get<" << I << "> of a const rvalue"); EQ(get<I>(std::as_const(v)), m[I], "get<" << I << "> of a const object"); CK(&get<I>(v) == &v[I], "get<" << I << "> refers to something else than [" << I << "]"); }(), ...); }(std::make_index_sequence<N>{});
  { size_t i = 0; for (auto &x : v) { CK(i < N, "range-for runs too long"); CK(&x == &v[i], "range-for element " << i << " is another object"); EQ(x, m[i], "range-for element " << i); ++i; } CK(i == N, "range-for visited " << i << " elements"); }
  { size_t i = 0; for (auto it = v.cbegin(); it != v.cend(); ++it, ++i) EQ(*it, m[i], "cbegin + " << i); CK(i == N, "cbegin..cend has " << i << " elements"); }
  { size_t i = N; for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; EQ(*it, m[i], "reverse iteration, element " << i); } CK(i == 0, "rbegin..rend has a wrong length"); }
  { size_t i = N; for (auto it = v.crbegin(); it != v.crend(); it++) { --i; EQ(*it, m[i], "const reverse iteration, element " << i); } CK(i == 0, "crbegin..crend has a wrong length"); }
  { size_t i = 0; for (auto it = std::begin(v); it != std::end(v); it++, ++i) EQ(*it, m[i], "std::begin + " << i); CK(i == N, "std::begin..std::end"); }
  CK(v.length() == (int)N && v.size() == N && std::size(v) == N && (size_t)std::ranges::distance(v) == N && v.end() - v.begin() == (int)N && v.cend() - v.cbegin() == (int)N && v.rend() - v.rbegin() == (int)N && v.begin() - v.end() == -(int)N, "length or size is wrong");
  { if constexpr (requires { std::remove_cvref_t<V>::Count; }) { size_t ln = std::remove_cvref_t<V>::Count; CK(ln == N, "Count is wrong"); } size_t ts = std::tuple_size_v<std::remove_cvref_t<V>>; CK(ts == N, "tuple_size is wrong"); }
  if constexpr (N == 1) { auto &[a] = v; EQ(a, m[0], "structured binding"); } else if constexpr (N == 2) { auto &[a, b] = v; EQ(a, m[0], "structured binding 0"); EQ(b, m[1], "structured binding 1"); }
  else if constexpr (N == 3) { auto &[a, b, d] = v; EQ(a, m[0], "structured binding 0"); EQ(b, m[1], "structured binding 1"); EQ(d, m[2], "structured binding 2"); } else { auto &[a, b, d, e] = v; EQ(a, m[0], "structured binding 0"); EQ(b, m[1], "structured binding 1"); EQ(d, m[2], "structured binding 2"); EQ(e, m[3], "structured binding 3"); }
  auto arr = to_array(v); for (size_t i = 0; i < N; ++i) EQ(arr[i], m[i], "to_array " << i);
  [&]<size_t... I>(std::index_sequence<I...>) { basic_vector<T, N> w(v[I]...); for (size_t i = 0; i < N; ++i) EQ(w[i], m[i], "vector of the elements " << i); }(std::make_index_sequence<N>{});
}
// the same through the common base class of vectors and views
template <size_t N, class B, class V, class M> void read_base_of(B &b, V &v, const M &m) {
  for (size_t i = 0; i < N; ++i) { EQ(b[i], m[i], "base [" << i << "]"); CK(&b[i] == &std::as_const(v)[i] && &b[(int)i] == &std::as_const(v)[i], "element " << i << " of the base is another object"); }
  CK(&b.as_derived() == &v && b.data() == std::as_const(v).data(), "as_derived()/data() of the base"); CK(b.length() == (int)N && b.size() == N && std::size(b) == N, "length of the base");
  [&]<size_t... O>(std::index_sequence<O...>) { CK(sizeof...(O) == N, "sequence() of the base has the wrong length"); size_t off[]{O...}; for (size_t i = 0; i < N; ++i) EQ(b.data()[off[i]], m[i], "base data()[sequence() " << i << "]"); }(B::sequence());
  { size_t i = 0; for (auto &x : b) { CK(i < N && &x == &b[i], "range-for over the base, element " << i); ++i; } CK(i == N, "range-for over the base visited " << i << " elements"); }
  { size_t i = 0; for (auto it = b.cbegin(); it != b.cend(); ++it, ++i) { CK(i < N, "cbegin..cend of the base runs too long"); EQ(*it, m[i], "base cbegin + " << i); } CK(i == N, "cbegin..cend of the base has " << i << " elements"); }
  CK(b.end() - b.begin() == (int)N && b.cend() - b.cbegin() == (int)N && b.rend() - b.rbegin() == (int)N && b.crend() - b.crbegin() == (int)N, "distance of the iterators of the base");
  { size_t i = N; for (auto it = b.rbegin(); it != b.rend(); ++it) EQ(*it, m[--i], "reverse iteration over the base, element " << i); CK(i == 0, "rbegin..rend of the base"); }
  { size_t i = N; for (auto it = b.crbegin(); it != b.crend(); ++it) EQ(*it, m[--i], "const reverse iteration over the base, element " << i); CK(i == 0, "crbegin..crend of the base"); }
}
template <size_t N, class V, class M> void read_both(V &v, const M &m) { read_all<N>(v, m); read_all<N>(std::as_const(v), m); read_base_of<N>(v.as_base(), v, m); read_base_of<N>(std::as_const(v).as_base(), v, m); }

// random-access laws for every pair of positions
template <size_t N, class V, class M> void laws(Case &c, V &v, const M &m) {
  using I = decltype(v.begin()); using CI = decltype(v.cbegin()); using Df = std::iter_difference_t<I>;
  static_assert(std::random_access_iterator<I> && std::random_access_iterator<CI>);
  auto b = v.begin(); auto e = v.end(); constexpr int n = (int)N;
  for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) {
    I a = b + (Df)i, d = b + (Df)j; auto at = [&] { return "positions " + std::to_string(i) + ", " + std::to_string(j) + ": "; };
    CK(d - a == j - i, at() << "difference is " << (long)(d - a)); CK(a + (Df)(j - i) == d, at() << "+"); CK((Df)(j - i) + a == d, at() << "n + it"); CK(d - (Df)(j - i) == a, at() << "-");
    { I x = a; auto &r = (x += (Df)(j - i)); CK(x == d && &r == &x, at() << "+="); auto &s = (x -= (Df)(j - i)); CK(x == a && &s == &x, at() << "-="); }
    CK((a == d) == (i == j) && (a != d) == (i != j) && (a < d) == (i < j) && (a <= d) == (i <= j) && (a > d) == (i > j) && (a >= d) == (i >= j), at() << "comparison");
    CK((a <=> d) == (i <=> j), at() << "<=>");
    if (j < n) { EQ(a[(Df)(j - i)], m[j], at() << "it[n]"); CK(&a[(Df)(j - i)] == &v[j], at() << "it[n] refers to another element"); }
    CI ca = a, cd = v.cbegin() + (Df)j; CK(ca == a && (ca == cd) == (i == j) && (ca < cd) == (i < j) && cd - ca == j - i && cd - a == j - i && (a <=> cd) == (i <=> j), at() << "const and non-const iterators"); if (j < n) EQ(*cd, m[j], at() << "const *");
    CK(std::next(a, j - i) == d && std::distance(a, d) == j - i, at() << "next/distance");
    auto ra = std::make_reverse_iterator(a), rd = std::make_reverse_iterator(d); CK(rd - ra == i - j && (ra < rd) == (i > j) && (ra == rd) == (i == j), at() << "reverse iterators"); if (i > 0) EQ(*ra, m[i - 1], at() << "reverse *");
  }
  for (int i = 0; i < n; ++i) {
    I a = b + (Df)i; EQ(*a, m[i], "*"); CK(&*a == &v[i], "* refers to another element"); if constexpr (requires { a.operator->(); }) CK(a.operator->() == &v[i], "-> refers to another element");
    I x = a; auto &r = ++x; CK(&r == &x && x - b == i + 1, "prefix ++"); auto &s = --x; CK(&s == &x && x == a, "prefix --"); I y = x++; CK(y == a && x - b == i + 1, "postfix ++"); I z = x--; CK(z - b == i + 1 && x == a, "postfix --");
    EQ(*x++, m[i], "*it++"); EQ(v.rbegin()[i], m[n - 1 - i], "rbegin()[" << i << "]"); EQ(*(v.rend() - 1 - i), m[i], "rend() - 1 - " << i);
  }
  CK(b + (Df)n == e && e - (Df)n == b && e - b == n && I{} == I{}, "begin/end");
  // a random walk
  I it = b; int pos = 0, steps = (int)c.below(12);
  for (int s = 0; s < steps; ++s) { int t = c.range(0, n); switch (c.below(4)) { case 0: it += (Df)(t - pos); pos = t; break; case 1: it -= (Df)(pos - t); pos = t; break; case 2: if (pos < n) { if (c.coin()) ++it; else it++; ++pos; } break; case 3: if (pos > 0) { if (c.coin()) --it; else it--; --pos; } break; }
    CK(it - b == pos && e - it == n - pos, "random walk: position"); if (pos < n) EQ(*it, m[pos], "random walk"); I cpy = it; I as; as = it; CK(cpy == it && as == it, "copied iterator"); }
}
template <class It> constexpr bool arrow = requires(It i) { i.operator->(); };

// a write through one path, seen through all the others
template <size_t N, class V, class M> void write_one(Case &c, V &v, M &m) {
  size_t i = c.below(N); T x = gen(c); int p = (int)c.below(14); using Df = std::iter_difference_t<decltype(v.begin())>; NOTE(c, "  write path " << p << " element " << i << " := " << show(x));
  switch (p) {
    case 0: v[i] = x; break; case 1: v[(int)i] = x; break; case 2: *(v.begin() + (Df)i) = x; break; case 3: v.begin()[(Df)i] = x; break; case 4: *(v.rbegin() + (Df)(N - 1 - i)) = x; break;
    case 5: [&]<size_t... I>(std::index_sequence<I...>) { ((I == i ? (void)(get<I>(v) = x) : (void)0), ...); }(std::make_index_sequence<N>{}); break;
    case 6: v.data()[V::offsets[i]] = x; break; case 7: { size_t k = 0; for (auto &e : v) { if (k == i) e = x; ++k; } break; }
    case 8: { auto it = v.begin() + (Df)i; if constexpr (arrow<decltype(it)>) *it.operator->() = x; else *it = x; break; }
    case 9: { if constexpr (N == 1) { auto &[a] = v; a = x; } else if constexpr (N == 2) { auto &[a, b] = v; (i ? b : a) = x; } else if constexpr (N == 3) { auto &[a, b, d] = v; (i == 0 ? a : i == 1 ? b : d) = x; } else { auto &[a, b, d, e] = v; (i == 0 ? a : i == 1 ? b : i == 2 ? d : e) = x; } break; }
    case 10: { T b[4]; for (size_t k = 0; k < N; ++k) b[k] = m[k]; b[i] = x; [&]<size_t... I>(std::index_sequence<I...>) { v.set(b[I]...); }(std::make_index_sequence<N>{}); break; }
    case 11: v.as_base()[i] = x; break; case 12: *(v.as_base().rbegin() + (Df)(N - 1 - i)) = x; break;
    case 13: { T b[4]; for (size_t k = 0; k < N; ++k) b[k] = m[k]; b[i] = x; [&]<size_t... I>(std::index_sequence<I...>) { v.as_base().set(b[I]...); }(std::make_index_sequence<N>{}); break; }
  }
  m[i] = x;
}
// read-only objects offer no writable element through any path
template <class V> constexpr bool leaks = requires(V &v) { *v.begin() = T(); } || requires(V &v) { v.begin()[0] = T(); } || requires(V &v) { *v.rbegin() = T(); } || requires(V &v) { *v.data() = T(); } || requires(V &v) { get<0>(v) = T(); } || requires(V &v) { v[0] = T(); } || requires(V &v) { *v.begin().operator->() = T(); };

#if PART == 1 || PART == 3 || PART == 6 || PART == 7 || PART == 0
constexpr bool MANY = true;
#else
constexpr bool MANY = false;
#endif
template <size_t N, class V, class M> void algorithms(Case &c, V &v, M &m) {
  std::array<T, N> a = m; auto cb = v.cbegin(), ce = v.cend(); T x = c.coin() ? m[c.below(N)] : gen(c);
  CK(std::find(cb, ce, x) - cb == std::find(a.begin(), a.end(), x) - a.begin(), "std::find"); CK(std::count(v.begin(), v.end(), x) == std::count(a.begin(), a.end(), x), "std::count");
  CK(std::min_element(cb, ce) - cb == std::min_element(a.begin(), a.end()) - a.begin() && std::max_element(v.rbegin(), v.rend()) - v.rbegin() == std::max_element(a.rbegin(), a.rend()) - a.rbegin(), "std::min_element/max_element");
  CK(std::equal(v.begin(), v.end(), a.begin()) && std::equal(a.begin(), a.end(), cb), "std::equal"); CK(std::is_sorted(cb, ce) == std::is_sorted(a.begin(), a.end()), "std::is_sorted");
  CK(std::ranges::find(v, x) - v.begin() == std::find(a.begin(), a.end(), x) - a.begin(), "ranges::find");
  { std::array<T, N> o{}; std::copy(v.begin(), v.end(), o.begin()); CK(same_arr(o, a), "std::copy from"); std::reverse_copy(cb, ce, o.begin()); for (size_t i = 0; i < N; ++i) EQ(o[i], a[N - 1 - i], "std::reverse_copy"); std::vector<T> vv(v.rbegin(), v.rend()); for (size_t i = 0; i < N; ++i) EQ(vv[i], a[N - 1 - i], "vector(rbegin, rend)"); }
  if constexpr (!std::is_same_v<T, bool>) { bool s = same(std::accumulate(v.begin(), v.end(), T(0), [](T p, T q) { return p < q ? q : p; }), std::accumulate(a.begin(), a.end(), T(0), [](T p, T q) { return p < q ? q : p; })); CK(s, "std::accumulate"); }
  if constexpr (writable_v<V>) {
    int alg = (int)c.below(13); size_t k = c.below(N + 1), l = c.below(N + 1); if (k > l) std::swap(k, l); using Df = std::iter_difference_t<decltype(v.begin())>; auto B = v.begin(); NOTE(c, "  algorithm " << alg << " " << k << " " << l);
    switch (alg) {
      case 0: std::sort(v.begin(), v.end()); std::sort(a.begin(), a.end()); break; case 1: std::reverse(B + (Df)k, B + (Df)l); std::reverse(a.begin() + k, a.begin() + l); break;
      case 2: { auto r = std::rotate(v.begin(), B + (Df)k, v.end()); auto s = std::rotate(a.begin(), a.begin() + k, a.end()); CK(r - v.begin() == s - a.begin(), "std::rotate result"); break; }
      case 3: std::fill(B + (Df)k, B + (Df)l, x); std::fill(a.begin() + k, a.begin() + l, x); break;
      case 4: std::transform(v.cbegin(), v.cend(), v.rbegin(), [](T q) { return q; }); std::transform(a.cbegin(), a.cend(), a.rbegin(), [](T q) { return q; }); break;
      case 5: if constexpr (MANY) { CK(std::next_permutation(v.begin(), v.end()) == std::next_permutation(a.begin(), a.end()), "std::next_permutation result"); } break;
      case 6: std::copy_backward(v.begin(), v.end() - 1, v.end()); std::copy_backward(a.begin(), a.end() - 1, a.end()); break;
      case 7: { auto r = std::remove(v.begin(), v.end(), x); auto s = std::remove(a.begin(), a.end(), x); CK(r - v.begin() == s - a.begin(), "std::remove result"); break; }
      case 8: if constexpr (MANY) { auto r = std::unique(v.begin(), v.end()); auto s = std::unique(a.begin(), a.end()); CK(r - v.begin() == s - a.begin(), "std::unique result"); } break;
      case 9: if (k < N) { std::iter_swap(B + (Df)k, v.end() - 1); std::iter_swap(a.begin() + k, a.end() - 1); } break;
      case 10: std::sort(v.rbegin(), v.rend()); std::sort(a.rbegin(), a.rend()); break;
      case 11: if constexpr (MANY) { std::ranges::sort(v, std::greater<>{}); std::ranges::sort(a, std::greater<>{}); } break;
      case 12: if constexpr (MANY) { std::partial_sum(v.begin(), v.end(), v.begin(), [](T p, T q) { return q < p ? p : q; }); std::partial_sum(a.begin(), a.end(), a.begin(), [](T p, T q) { return q < p ? p : q; }); } break;
    }
    m = a;
  }
}
template <size_t N> struct Body { Case &c;
  template <class V, class M> void operator()(V &v, const M &m0) {
    std::array<T, N> m = m0; NOTE(c, "  elements " << show(m)); read_both<N>(v, m); laws<N>(c, v, m); laws<N>(c, std::as_const(v), m);
    constexpr bool cl = leaks<const V>; CK(!cl, "a const object offers a writable element");
    if constexpr (writable_v<V>) { int n = 1 + (int)c.below(4); for (int i = 0; i < n; ++i) { if (c.coin()) write_one<N>(c, v, m); else algorithms<N>(c, v, m); read_both<N>(v, m); } }
    else { constexpr bool l = leaks<V>; CK(!l, "a read-only object offers a writable element"); algorithms<N>(c, v, m); read_both<N>(v, m); }
    c.nontrivial(all_distinct(m) || (std::is_same_v<T, bool> && N > 1));
  } };
template <size_t N> void access_n(Case &c) {
  std::array<T, N> m; for (auto &x : m) x = gen(c); if (!all_distinct(m) && !std::is_same_v<T, bool> && c.coin()) for (size_t i = 0; i < N; ++i) m[i] = T(3 + i * 2);
  NOTE(c, N << " components of " << tname<T>()); with_kind<T, N>(c, m, Body<N>{c});
}
void access(Case &c) { switch (c.below(4)) { case 0: access_n<1>(c); break; case 1: access_n<2>(c); break; case 2: access_n<3>(c); break; default: access_n<4>(c); } }
// the storage classes behind vectors and views
template <size_t N> void wrap_n(Case &c) {
  std::array<T, N> m; for (auto &x : m) x = gen(c); T raw[N + 2]; raw[0] = raw[N + 1] = T(1); for (size_t i = 0; i < N; ++i) raw[i + 1] = m[i];
  storage_wrapper<true, T, N> s{}; for (size_t i = 0; i < N; ++i) s[i] = m[i]; view_wrapper<true, T, N> w(raw + 1); view_wrapper<false, T, N> r(raw + 1);
  auto rd = [&](auto &v, const auto &mm, const char *n) { size_t k = 0; for (auto &x : v) { EQ(x, mm[k], n << " range-for"); CK(&x == &v[k] && v.data() + k == &x, n << ": element addresses"); ++k; } CK(k == N && v.size() == N && v.length() == (int)N && v.end() - v.begin() == (int)N, n << ": length"); k = N; for (auto it = v.rbegin(); it != v.rend(); ++it) EQ(*it, mm[--k], n << " reverse"); k = N; for (auto it = v.crbegin(); it != v.crend(); ++it) EQ(*it, mm[--k], n << " const reverse"); k = 0; for (auto it = v.cbegin(); it != v.cend(); ++it) EQ(*it, mm[k++], n << " cbegin");
    [&]<size_t... I>(std::index_sequence<I...>) { ((void)[&] { CK(&get<I>(v) == &v[I], n << ": get<" << I << ">"); EQ(get<I>(std::move(v)), mm[I], n << ": get<" << I << "> of an rvalue"); EQ(get<I>(std::move(std::as_const(v))), mm[I], n << ": get<" << I << "> of a const rvalue"); }(), ...); }(std::make_index_sequence<N>{}); };
  auto all = [&] { rd(s, m, "storage_wrapper"); rd(std::as_const(s), m, "const storage_wrapper"); rd(w, m, "view_wrapper"); rd(std::as_const(w), m, "const view_wrapper"); rd(r, m, "read-only view_wrapper"); CK(raw[0] == T(1) && raw[N + 1] == T(1), "memory next to the view changed"); };
  all(); for (auto &x : m) x = gen(c); [&]<size_t... I>(std::index_sequence<I...>) { s.set(m[I]...); w.set(m[I]...); }(std::make_index_sequence<N>{}); all();
  size_t i = c.below(N); m[i] = gen(c); s.begin()[i] = m[i]; *(w.rend() - 1 - (long)i) = m[i]; all();
  storage_wrapper<true, T, N> s2 = s; if constexpr (requires { s2 == s; }) CK(s2 == s, "a copied storage_wrapper compares unequal"); s2[i] = T(s2[i] == T(0)); if constexpr (requires { s2 == s; }) CK(!(s2 == s), "storage_wrappers with different elements compare equal"); auto sm = s2; if (c.coin()) s2.swap(s); else if (c.coin()) swap(s2, s); else { using std::swap; swap(s, s2); } for (size_t k = 0; k < N; ++k) { EQ(s[k], sm[k], "storage_wrapper swap"); EQ(s2[k], m[k], "storage_wrapper swap"); }
  // the wrapper that is a member of every vector is the vector's own storage
  basic_vector<T, N> v{}, v2{}; for (size_t k = 0; k < N; ++k) { v.base[k] = m[k]; v2[k] = sm[k]; } auto both = [&](const char *n, auto &a, const auto &mm) { rd(a.base, mm, n); rd(std::as_const(a).base, mm, n); for (size_t k = 0; k < N; ++k) { EQ(a[k], mm[k], n << ": read through the vector"); CK(&a[k] == &a.base[k], n << ": element address"); } };
  both("base of a vector", v, m); both("base of a vector", v2, sm); if (c.coin()) swap(v.base, v2.base); else v.base.swap(v2.base); both("base after a swap", v, sm); both("base after a swap", v2, m);
  [&]<size_t... I>(std::index_sequence<I...>) { v.base.set(m[I]...); }(std::make_index_sequence<N>{}); both("base after set", v, m); T raw2[N + 2]; raw2[0] = raw2[N + 1] = T(1); for (size_t k = 0; k < N; ++k) { raw2[k + 1] = sm[k]; } basic_view<true, T, N> bv(raw2 + 1); for (size_t k = 0; k < N; ++k) { EQ(bv.base[k], sm[k], "base of a view"); CK(&bv.base[k] == raw2 + 1 + k, "base of a view: element address"); bv.base[k] = m[k]; EQ(raw2[k + 1], m[k], "written through the base of a view"); } CK(raw2[0] == T(1) && raw2[N + 1] == T(1), "memory next to the view changed");
  c.nontrivial(N > 1);
}
void wrappers(Case &c) { switch (c.below(4)) { case 0: wrap_n<1>(c); break; case 1: wrap_n<2>(c); break; case 2: wrap_n<3>(c); break; default: wrap_n<4>(c); } }
#define NM(X) ((const char *)[] { static std::string s = std::string("C07.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("access"), 1, access);
PBT_PROP(NM("wrappers"), 0.3, wrappers);
}
