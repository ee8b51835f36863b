// C08: misuse is detected, correct use is not. PART selects the element type (0-4), PART 5: matrices.
#include "kinds.hpp"
#include <memory>
using namespace dsga;
namespace {
using T = std::tuple_element_t<PART < 5 ? PART : 2, std::tuple<int, ull, float, double, bool>>;
constexpr bool BOOL = std::is_same_v<T, bool>;
// index values around the valid range and far away
template <class I> I gen_index(Case &c, int n) {
  switch (c.below(4)) { case 0: return (I)c.below(n); case 1: return (I)(n + (int)c.below(4)); case 2: if constexpr (std::is_signed_v<I>) return (I)(-1 - (int)c.below(4)); else return (I)(n + c.below(8));
    default: { I b[] = {std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), (I)((uint64_t)1 << (sizeof(I) * 8 - 2)), (I)127, (I)64, (I)((uint64_t)1 << (sizeof(I) * 4)), (I)(((uint64_t)1 << (sizeof(I) * 8 - 1)) + 1), (I)255}; return b[c.below(8)]; } }
}
template <class I> bool inside(I i, int n) { if constexpr (std::is_signed_v<I>) if (i < 0) return false; return (uint64_t)i < (uint64_t)n; }
void decide(bool stopped, bool should, const std::string &what) { CK(stopped == should, what << (stopped ? " stopped the program although it is a correct use" : " was not detected")); }

// an index of one of several types applied by f(i); detected exactly when outside [0, n)
template <class F> void with_index(Case &c, int n, const std::string &what, F &&f) {
  auto go = [&]<class I>(I i, auto conv) { auto x = conv(i); NOTE(c, "  " << what << " index " << show((ll)i) << " of length " << n << " (" << sizeof(I) * 8 << " bit)"); bool in = inside(i, n); decide(aborts([&] { f(x, in); }), !in, what + " with index " + show((ll)i) + " of length " + std::to_string(n)); c.nontrivial(); };
  auto id = [](auto i) { return i; };
  switch (c.below(9)) { case 0: go(gen_index<int>(c, n), id); break; case 1: go(gen_index<unsigned>(c, n), id); break; case 2: go(gen_index<ll>(c, n), id); break; case 3: go(gen_index<ull>(c, n), id); break; case 4: go(gen_index<sz>(c, n), id); break;
    case 5: go(gen_index<signed char>(c, n), id); break; case 6: go(gen_index<short>(c, n), id); break; case 7: go(gen_index<unsigned short>(c, n), id); break; case 8: go(gen_index<int>(c, n), [](int i) { return basic_vector<int, 1>(i); }); break; }
}
volatile bool sink;
#if PART < 5
template <class V> constexpr bool writable_v = requires(V &v) { v[0] = T(); };
template <size_t N> void index_n(Case &c) {
  std::array<T, N> m; for (auto &x : m) x = gen_small<T>(c); int how = (int)c.below(3); int k = (int)c.below(NKINDS + 2);
  auto body = [&](auto &v, const auto &mm) {
    using V = std::remove_reference_t<decltype(v)>;
    std::array<T, N> cur = mm;
    with_index(c, (int)N, std::string(how == 0 ? "read of " : how == 1 ? "read of const " : "write to ") + (k < NKINDS ? kind_name(k) : "wrapper"), [&](auto i, bool in) {
      if (how == 0) { T x = v[i]; sink = x == T(); if (in) CK(same(x, mm[(size_t)(ll)i]), "wrong element read"); } else if (how == 1) { T x = std::as_const(v)[i]; if (in) CK(same(x, mm[(size_t)(ll)i]), "wrong element read"); }
      else if constexpr (writable_v<V>) { v[i] = T(1); if (in) cur[(size_t)(ll)i] = T(1); } else { T x = v[i]; (void)x; } });
    for (size_t i = 0; i < N; ++i) CK(same(T(v[i]), cur[i]), "element " << i << " changed"); };
  if (k < NKINDS) { auto f = [&]<int K>() { Opnd<K, T, N> o(m); body(o.get(), o.m); if (how != 2) CK(o.intact(), "memory changed");
      else if constexpr (Opnd<K, T, N>::is_view) { for (int i = 0; i < 2; ++i) CK(same(o.a[i], o.a0[i]), "memory in front of the view changed"); for (int i = 2 + (int)Opnd<K, T, N>::VN; i < 8; ++i) CK(same(o.a[i], o.a0[i]), "memory behind the view changed"); } };
    switch (k) { case 0: f.template operator()<0>(); break; case 1: f.template operator()<1>(); break; case 2: f.template operator()<2>(); break; case 3: f.template operator()<3>(); break; case 4: f.template operator()<4>(); break; case 5: f.template operator()<5>(); break; case 6: f.template operator()<6>(); break; case 7: f.template operator()<7>(); break; case 8: f.template operator()<8>(); break; } }
  else if (k == NKINDS) { struct { T g0[2]; storage_wrapper<true, T, N> s; T g1[2]; } g{{T(1), T(0)}, {}, {T(0), T(1)}}; for (size_t i = 0; i < N; ++i) g.s[i] = m[i]; body(g.s, m); CK(g.g0[0] == T(1) && g.g0[1] == T(0) && g.g1[0] == T(0) && g.g1[1] == T(1), "neighbouring memory changed"); }
  else { T raw[N + 2]; raw[0] = raw[N + 1] = T(1); std::copy(m.begin(), m.end(), raw + 1); view_wrapper<true, T, N> w(raw + 1); body(w, m); CK(raw[0] == T(1) && raw[N + 1] == T(1), "neighbouring memory changed"); }
}
void indexing(Case &c) { switch (c.below(4)) { case 0: index_n<1>(c); break; case 1: index_n<2>(c); break; case 2: index_n<3>(c); break; default: index_n<4>(c); } }

// every use of a view without a target is detected; making, copying and re-targeting one is not
template <bool M, size_t N> void null_n(Case &c) {
  T arr[8]{T(1), T(0), T(1), T(1), T(0), T(0), T(1), T(0)}; basic_view<M, T, N> w; if (c.coin()) { w.reset(arr); w.reset((T *)nullptr); } basic_view<M, T, N> u(w);
  basic_view<M, T, N> good(arr); basic_vector<T, N> vec{};
  int what = (int)c.below(34); const char *n = ""; bool applies = true, st = false;
  auto uses = [&](const char *name, auto &&f) { n = name; NOTE(c, "  " << name << ", length " << N << (M ? "" : ", read-only")); st = aborts(f); };
  auto &cw = std::as_const(w); size_t e = c.below(N);
  switch (what) {
    case 0: uses("reading [i]", [&] { sink = w[e] == T(); }); break; case 1: uses("reading const [i]", [&] { sink = cw[e] == T(); }); break; case 2: uses("data()", [&] { sink = w.data() != nullptr; }); break; case 3: uses("const data()", [&] { sink = cw.data() != nullptr; }); break;
    case 4: uses("range-for", [&] { for (auto &x : w) sink = x == T(); }); break; case 5: uses("const range-for", [&] { for (auto &x : cw) sink = x == T(); }); break; case 6: uses("reverse iteration", [&] { for (auto it = w.rbegin(); it != w.rend(); ++it) sink = *it == T(); }); break;
    case 7: uses("reading a swizzle", [&] { sink = w.x[0] == T(); }); break; case 8: uses("converting a swizzle to its scalar", [&] { T x = w.x; sink = x == T(); }); break; case 9: uses("copying a swizzle to a vector", [&] { basic_vector<T, 2> t(w.xx[0], w.xx[1]); sink = t[0] == T(); }); break;
    case 10: uses("dereferencing a swizzle iterator", [&] { sink = *w.xxx.begin() == T(); }); break; case 11: uses("swizzle data()", [&] { sink = w.xx.data() != nullptr; }); break; case 12: uses("get<0>", [&] { sink = get<0>(w) == T(); }); break;
    case 13: if constexpr (M) uses("writing [i]", [&] { w[e] = T(1); }); else applies = false; break; case 14: if constexpr (M) uses("set", [&] { [&]<size_t... I>(std::index_sequence<I...>) { w.set(((void)I, T(1))...); }(std::make_index_sequence<N>{}); }); else applies = false; break;
    case 15: if constexpr (M) uses("swap with a good view", [&] { w.swap(good); }); else applies = false; break; case 16: if constexpr (M) uses("swap of a good view with it", [&] { good.swap(w); }); else applies = false; break;
    case 17: if constexpr (M && !BOOL) uses("assignment", [&] { w = vec; }); else applies = false; break; case 18: if constexpr (M && !BOOL) uses("assignment to a swizzle", [&] { w.x = T(1); }); else applies = false; break; case 19: if constexpr (M) uses("writing an element of a swizzle", [&] { w.x[0] = T(1); }); else applies = false; break;
    case 20: if constexpr (!BOOL) uses("an operator", [&] { if constexpr (N > 1) sink = (w + vec)[0] == T(); else sink = (w + vec) == T(); }); else uses("to_array", [&] { sink = to_array(w)[0]; }); break; case 21: uses("construction of an owning view", [&] { [&]<size_t... I>(std::index_sequence<I...>) { view_vector<T, N> o(w[I]...); sink = o[0] == T(); }(std::make_index_sequence<N>{}); }); break;
    case 22: if constexpr (M && !BOOL) uses("compound assignment", [&] { w += vec; }); else applies = false; break; case 23: uses("reading through a copy", [&] { sink = u[e] == T(); }); break;
    case 24: uses("begin()", [&] { sink = w.begin() == w.begin(); }); break; case 25: uses("const begin()", [&] { sink = cw.begin() == cw.begin(); }); break; case 26: uses("cbegin()", [&] { auto it = w.cbegin(); sink = it == it; }); break;
    case 27: uses("end()", [&] { auto it = w.end(); sink = it == it; }); break; case 28: uses("const end()", [&] { auto it = cw.end(); sink = it == it; }); break; case 29: uses("cend()", [&] { auto it = cw.cend(); sink = it == it; }); break;
    case 30: uses("const rbegin()", [&] { auto it = cw.rbegin(); sink = it == it; }); break; case 31: uses("const rend()", [&] { auto it = cw.rend(); sink = it == it; }); break; case 32: uses("crend()", [&] { auto it = cw.crend(); sink = it == it; }); break; case 33: uses("writing through begin()", [&] { if constexpr (M) *w.begin() = T(1); else sink = *w.begin() == T(); }); break;
  }
  if (applies) decide(st, true, std::string(n) + " of a view without a target");
  bool ok = aborts([&] { basic_view<M, T, N> q; basic_view<M, T, N> r(q); r.reset(arr); sink = r[e] == T(); r.reset((T *)nullptr); sink = q.size() == N && q.length() == (int)N; w.reset(arr + 1); sink = w[e] == T(); sink = w.x[0] == T(); });
  decide(ok, false, "making, copying and re-targeting views"); for (int i = 0; i < 8; ++i) CK(arr[i] == T(i == 0 || i == 2 || i == 3 || i == 6), "data of another view changed"); c.nontrivial(applies);
}
void null_views(Case &c) { bool m = c.coin(); switch (c.below(4)) { case 0: m ? null_n<true, 1>(c) : null_n<false, 1>(c); break; case 1: m ? null_n<true, 2>(c) : null_n<false, 2>(c); break; case 2: m ? null_n<true, 3>(c) : null_n<false, 3>(c); break; default: m ? null_n<true, 4>(c) : null_n<false, 4>(c); } }

// swizzle iterators: a random walk against a position model; the first step outside [begin, end] must be detected
template <class V> void walk(Case &c, V &v, int n, const char *name) {
  auto it = v.begin(); using Df = std::iter_difference_t<decltype(it)>; int pos = 0, steps = 1 + (int)c.below(8);
  for (int s = 0; s < steps; ++s) {
    int op = (int)c.below(12), p0 = pos; ll d = 0; bool ok = true, st; std::string w = name;
    auto off = [&](bool deref) { switch (c.below(3)) { case 0: d = (ll)c.below(n + 1) - pos; break; case 1: d = c.range(-6, 6); break; default: { ll b[] = {INT_MAX, INT_MIN + 1, 1000, -1000, 1 << 16, -(1 << 16)}; d = b[c.below(6)]; } } ll t = pos + d; ok = t >= 0 && t <= n && !(deref && t == n); };
    auto np = it;
    switch (op) {
      case 0: ok = pos < n; w += ": prefix ++"; st = aborts([&] { ++np; }); if (ok) ++pos; break; case 1: ok = pos < n; w += ": postfix ++"; st = aborts([&] { np++; }); if (ok) ++pos; break;
      case 2: ok = pos > 0; w += ": prefix --"; st = aborts([&] { --np; }); if (ok) --pos; break; case 3: ok = pos > 0; w += ": postfix --"; st = aborts([&] { np--; }); if (ok) --pos; break;
      case 4: off(false); w += ": += "; st = aborts([&] { np += (Df)d; }); if (ok) pos += (int)d; break; case 5: off(false); w += ": -= of minus "; st = aborts([&] { np -= (Df)-d; }); if (ok) pos += (int)d; break;
      case 6: off(false); w += ": it + "; st = aborts([&] { np = it + (Df)d; }); if (ok) pos += (int)d; break; case 7: off(false); w += ": it - minus "; st = aborts([&] { np = it - (Df)-d; }); if (ok) pos += (int)d; break; case 8: off(false); w += ": n + it, n = "; st = aborts([&] { np = (Df)d + it; }); if (ok) pos += (int)d; break;
      case 9: ok = pos < n; w += ": *it"; st = aborts([&] { T x = *it; sink = x == T(); if (!same(x, T(v[pos]))) throw pbt::Failure{"*it is the wrong element"}; }); break; case 10: ok = pos < n; w += ": it->"; st = aborts([&] { sink = it.operator->() == nullptr; }); break;
      case 11: off(true); w += ": it[n], n = "; st = aborts([&] { T x = it[(Df)d]; sink = x == T(); if (ok && !same(x, T(v[pos + (int)d]))) throw pbt::Failure{"it[n] is the wrong element"}; }); break;
    }
    NOTE(c, "  " << w << d << " at position " << (op < 9 && ok ? "-> " : "") << pos << " of " << n); decide(st, !ok, w + (op >= 4 && op != 9 && op != 10 ? std::to_string(d) : "") + " from position " + std::to_string(p0) + " of " + std::to_string(n)); if (st) continue; if (op < 9) { it = np; CK(it - v.begin() == pos, w << ": at position " << (it - v.begin()) << ", expected " << pos); }
  }
}
template <size_t N> void iter_n(Case &c) {
  std::array<T, N> m; for (size_t i = 0; i < N; ++i) m[i] = BOOL ? T(i & 1) : T(i + 1); int k = (int)c.below(5); bool cst = c.coin();
  auto go = [&]<int K>() { Opnd<K, T, N> o(m); if (cst) walk(c, std::as_const(o.get()), (int)N, kind_name(K)); else walk(c, o.get(), (int)N, kind_name(K)); CK(o.intact(), "memory changed"); };
  switch (k) { case 0: go.template operator()<1>(); break; case 1: go.template operator()<5>(); break; case 2: go.template operator()<6>(); break; case 3: go.template operator()<7>(); break; default: go.template operator()<8>(); } c.nontrivial();
}
void iterators(Case &c) { switch (c.below(4)) { case 0: iter_n<1>(c); break; case 1: iter_n<2>(c); break; case 2: iter_n<3>(c); break; default: iter_n<4>(c); } }
// iterators of nothing, made at a position, and of two objects
template <class V> void odd_iter(Case &c, V &a, V &b, int n, const char *name) {
  using I = decltype(a.begin()); I none{}; bool st; std::string w = name; int i = (int)c.below(n + 1), j = (int)c.below(n + 1); I x = a.begin() + i, y = b.begin() + j, z = a.begin() + j; auto cx = std::as_const(a).begin() + i;
  auto det = [&](const char *what, auto f) { NOTE(c, "  " << w << ": " << what << " at " << i << ", " << j << " of " << n); st = aborts(f); decide(st, true, w + ": " + what); CK(pbt::trap_signal == SIGABRT, w << ": " << what << " was not detected, the processor trapped"); };
  switch (c.below(14)) {
    case 0: det("* of an iterator of nothing", [&] { T t = *none; sink = t == T(); }); break; case 1: det("-> of an iterator of nothing", [&] { sink = none.operator->() == nullptr; }); break; case 2: { int k = (int)c.below(n); det("[] of an iterator of nothing", [&] { T t = none[k]; sink = t == T(); }); break; }
    case 3: det("== between objects", [&] { sink = x == y; }); break; case 4: det("!= between objects", [&] { sink = x != y; }); break; case 5: det("< between objects", [&] { sink = x < y; }); break; case 6: det(">= between objects", [&] { sink = x >= y; }); break;
    case 7: det("- between objects", [&] { sink = (x - y) == 0; }); break; case 8: det("== with an iterator of nothing", [&] { sink = x == none; }); break; case 9: det("- between objects, const", [&] { sink = (cx - std::as_const(b).begin()) == 0; }); break; case 10: det("<=> between objects, const", [&] { sink = (cx <=> std::as_const(b).begin()) == 0; }); break;
    case 11: { bool e = true; st = aborts([&] { e = none == I{} && !(none != I{}) && (none - I{}) == 0; }); decide(st, false, w + ": comparing two iterators of nothing"); CK(e, w << ": two iterators of nothing differ"); break; }
    case 12: { int d = 0; bool lt = false, eq = false, le = false; st = aborts([&] { d = x - z; lt = x < z; eq = x == z; le = cx <= z; }); decide(st, false, w + ": comparing iterators of one object"); CK(d == i - j && lt == (i < j) && eq == (i == j) && le == (i <= j), w << ": iterators at " << i << " and " << j << " compare wrongly"); break; }
    default: { ll b2[] = {-1, n + 1, INT_MAX, INT_MIN, 5, 100, -100, 0, n}; int k = c.coin() ? (int)b2[c.below(9)] : (int)c.range(-1, n + 1); NOTE(c, "  " << w << ": constructed at " << k << " of " << n); st = aborts([&] { I m(a, k); sink = m == a.begin() + std::clamp(k, 0, n); }); decide(st, k < 0 || k > n, w + ": an iterator constructed at " + std::to_string(k)); }
  }
}
template <size_t N> void odd_n(Case &c) {
  std::array<T, N> m{}; bool cst = c.coin(); auto go = [&]<int K>() { Opnd<K, T, N> o(m), q(m); if (cst) odd_iter(c, std::as_const(o.get()), std::as_const(q.get()), (int)N, kind_name(K)); else odd_iter(c, o.get(), q.get(), (int)N, kind_name(K)); };
  switch (c.below(5)) { case 0: go.template operator()<1>(); break; case 1: go.template operator()<5>(); break; case 2: go.template operator()<6>(); break; case 3: go.template operator()<7>(); break; default: go.template operator()<8>(); } c.nontrivial();
}
void odd_iterators(Case &c) { switch (c.below(4)) { case 0: odd_n<1>(c); break; case 1: odd_n<2>(c); break; case 2: odd_n<3>(c); break; default: odd_n<4>(c); } }

// run-time swizzles
template <size_t N> void swz_n(Case &c) {
  std::array<T, N> m; for (auto &x : m) x = gen_small<T>(c, 20); int k = 1 + (int)c.below(4); sz i[4]; bool ok = true; for (int j = 0; j < 4; ++j) { i[j] = c.chance(1, 4) ? gen_index<sz>(c, (int)N) : c.below(N); if (j < k && i[j] >= N) ok = false; }
  NOTE(c, "  " << k << " indexes " << show(std::vector<sz>(i, i + k)) << " of length " << N); bool as_int = c.coin(); if (as_int) for (int j = 0; j < 4; ++j) { if (i[j] > 0x7fffffff) i[j] = (sz)(ll)(int)i[j]; } ok = true; for (int j = 0; j < k; ++j) ok &= i[j] < N;
  with_kind<T, N>(c, m, [&](auto &v, const auto &mm) {
    T r[4]{}; bool st = aborts([&] { auto f = [&](auto... x) { if constexpr (sizeof...(x) == 1) r[0] = swizzle(v, x...); else { auto t = swizzle(v, x...); for (size_t j = 0; j < sizeof...(x); ++j) r[j] = t[j]; } };
      if (as_int) { if (k == 1) f((int)i[0]); else if (k == 2) f((int)i[0], (int)i[1]); else if (k == 3) f((int)i[0], (int)i[1], (int)i[2]); else f((int)i[0], (int)i[1], (int)i[2], (int)i[3]); }
      else { if (k == 1) f(i[0]); else if (k == 2) f(i[0], i[1]); else if (k == 3) f(i[0], i[1], i[2]); else f(i[0], i[1], i[2], i[3]); } });
    decide(st, !ok, "run-time swizzle"); if (ok) for (int j = 0; j < k; ++j) CK(same(r[j], mm[i[j]]), "run-time swizzle component " << j); }); c.nontrivial();
}
void swizzles(Case &c) { switch (c.below(4)) { case 0: swz_n<1>(c); break; case 1: swz_n<2>(c); break; case 2: swz_n<3>(c); break; default: swz_n<4>(c); } }

// modulus by zero
template <size_t N, class U> void mod_n(Case &c) {
  if constexpr (std::is_integral_v<T> && !BOOL) {
    std::array<T, N> a; std::array<U, N> b; for (auto &x : a) x = gen_small<T>(c, 50); for (auto &x : b) x = c.chance(1, 3) ? U(0) : U(1 + c.below(9)); int form = (int)c.below(8); size_t e = c.below(N); U s = b[e];
    bool anyz = false; for (auto x : b) anyz |= x == 0; NOTE(c, "  " << show(a) << " % " << show(b) << " form " << form << " scalar " << show(s));
    auto x = mk(a); auto y = mk(b); auto x0 = x; basic_vector<U, 1> s1(s); T arr[N + 2]; arr[0] = arr[N + 1] = T(7); std::copy(a.begin(), a.end(), arr + 1); basic_view<true, T, N> w(arr + 1); bool st = false, should = form == 0 || form == 2 || form == 6 ? anyz : s == 0; const char *n = "";
    switch (form) { case 0: n = "vector % vector"; st = aborts([&] { auto r = x % y; sink = r == r; }); break; case 1: n = "vector % scalar"; st = aborts([&] { auto r = x % s; sink = r == r; }); break; case 2: n = "vector %= vector"; st = aborts([&] { x %= y; }); break; case 3: n = "vector %= scalar"; st = aborts([&] { x %= s; }); break;
      case 4: n = "vector % one component"; st = aborts([&] { auto r = x % s1; sink = r == r; }); break; case 5: n = "view %= one component"; st = aborts([&] { w %= s1; }); break; case 6: n = "scalar % vector"; st = aborts([&] { auto r = T(9) % y; sink = r == r; }); break; case 7: n = "swizzle %= scalar"; st = aborts([&] { x.x %= s; }); break; }
    decide(st, should, n); CK(!st || pbt::trap_signal == SIGABRT, n << " by zero was not detected, the processor trapped"); if (st) CK(x == x0, "the left operand changed although the operation was stopped"); CK(arr[0] == T(7) && arr[N + 1] == T(7), "neighbouring memory changed"); if (form == 1 && !st) { auto r = x % s; if constexpr (N > 1) { for (size_t i = 0; i < N; ++i) CK(r[i] == a[i] % s, "wrong remainder"); } else CK(r == a[0] % s, "wrong remainder"); } c.nontrivial(should);
  }
}
void moduli(Case &c) { bool u = c.coin(); using U1 = T; using U2 = std::conditional_t<sizeof(T) == 4, int, unsigned>; switch (c.below(4)) { case 0: mod_n<1, U1>(c); break; case 1: u ? mod_n<2, U1>(c) : mod_n<2, U2>(c); break; case 2: u ? mod_n<3, U1>(c) : mod_n<3, U2>(c); break; default: u ? mod_n<4, U1>(c) : mod_n<4, U2>(c); } }
// functions with a documented precondition: stopped exactly when some component violates it
template <size_t N> void precond_n(Case &c) {
  if constexpr (!BOOL) {
    using A = std::array<T, N>; constexpr bool FP = std::is_floating_point_v<T>;
    auto val = [&]() -> T { if (c.chance(1, 6)) { T b[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), FP ? T(-0.0) : T(1)}; return b[c.below(4)]; } return FP && c.coin() ? T((int)c.range(-12, 12)) / T(4) : gen_small<T>(c, 3); };
    A a, b, x; int shape = (int)c.below(4); // mostly correct with a single offending component, everything correct, arbitrary
    auto order = [&](bool strict) { for (size_t i = 0; i < N; ++i) { a[i] = val(); b[i] = val(); x[i] = val(); if (shape != 3) { if (b[i] < a[i]) std::swap(a[i], b[i]); if (strict && !(a[i] < b[i])) { a[i] = T(1); b[i] = T(2); } } }
      if (shape < 2) { size_t i = c.below(N); if (a[i] < b[i]) std::swap(a[i], b[i]); if (c.coin()) { a[i] = b[i]; if (!strict) a[i] = T(3), b[i] = T(2); } } };
    int fn = (int)c.below(FP ? 7 : 3); bool should = false, st = false; const char *n = ""; size_t e = c.below(N);
    auto go3 = [&](auto off, auto f) { with_pair(c, a, b, [&](auto &&p, const auto &mp, auto &&q, const auto &mq) { NOTE(c, "  " << show(mp) << ", " << show(mq)); for (size_t i = 0; i < N; ++i) should |= off(mp[i], mq[i]); st = aborts([&] { f(p, q); }); }); };
    switch (fn) {
      case 0: n = "clamp(vector, vector, vector)"; order(false); { auto v = mk(x); go3([](T p, T q) { return q < p; }, [&](auto &p, auto &q) { auto r = clamp(v, p, q); sink = sizeof(r) != 0; }); } break;
      case 1: n = "clamp(vector, scalar, scalar)"; order(false); should = b[e] < a[e]; with_kind(c, x, [&](auto &&p, const auto &) { st = aborts([&] { auto r = clamp(p, a[e], b[e]); sink = sizeof(r) != 0; }); }); break;
      case 2: n = "clamp(scalar, scalar, scalar)"; order(false); should = b[e] < a[e]; st = aborts([&] { T r = clamp(x[e], a[e], b[e]); sink = r == T(); }); break;
      case 3: n = "smoothstep(vector, vector, vector)"; order(true); if constexpr (FP) { auto v = mk(x); go3([](T p, T q) { return !(p < q); }, [&](auto &p, auto &q) { auto r = smoothstep(p, q, v); sink = sizeof(r) != 0; }); } break;
      case 4: n = "smoothstep(scalar, scalar, vector / scalar)"; order(true); should = !(a[e] < b[e]); if constexpr (FP) { if (c.coin()) st = aborts([&] { T r = smoothstep(a[e], b[e], x[e]); sink = r == T(); }); else with_kind(c, x, [&](auto &&p, const auto &) { st = aborts([&] { auto r = smoothstep(a[e], b[e], p); sink = sizeof(r) != 0; }); }); } break;
      default: if constexpr (FP) { auto bad = [](T p, T q) { return p < 0 || (p == 0 && q <= 0); };
        for (size_t i = 0; i < N; ++i) { a[i] = val(); b[i] = val(); if (shape != 3) { a[i] = a[i] < 0 ? -a[i] : a[i]; if (bad(a[i], b[i])) b[i] = T(1.5); } }
        if (shape < 2) { if (c.coin()) { a[e] = T(c.coin() ? 0.0 : -0.0); b[e] = T(c.coin() ? 0.0 : -2.0); } else a[e] = T(-(int)c.range(1, 5)) / T(4); }
        if (fn == 5) { n = "pow(vector, vector)"; go3(bad, [&](auto &p, auto &q) { auto r = pow(p, q); sink = sizeof(r) != 0; }); }
        else { n = "pow(scalar, scalar)"; should = bad(a[e], b[e]); st = aborts([&] { T r = dsga::pow(a[e], b[e]); sink = r == T(); }); } }
    }
    NOTE(c, "  " << n << " component " << e << " of " << show(a) << ", " << show(b) << ", " << show(x)); decide(st, should, n); c.nontrivial(should);
  }
}
void preconds(Case &c) { switch (c.below(4)) { case 0: precond_n<1>(c); break; case 1: precond_n<2>(c); break; case 2: precond_n<3>(c); break; default: precond_n<4>(c); } }
// the absolute value of the smallest signed integer does not exist
template <size_t N> void abs_n(Case &c) {
  if constexpr (std::is_same_v<T, int>) {
    auto run = [&]<class U>(U) { constexpr U mn = std::numeric_limits<U>::min(), mx = std::numeric_limits<U>::max(); std::array<U, N> a; U b[] = {mn, U(mn + 1), mx, 0, -1, 7}; for (auto &x : a) x = c.chance(1, 4) ? mn : b[c.below(6)]; bool any = false; for (auto x : a) any |= x == mn; size_t e = c.below(N); bool sc = c.coin(), st = false;
      if (sc) st = aborts([&] { U r = dsga::abs(a[e]); sink = r == 0; if (r != (a[e] < 0 ? -a[e] : a[e])) throw pbt::Failure{"wrong absolute value"}; }); else with_kind(c, a, [&](auto &&p, const auto &mp) { any = false; for (auto y : mp) any |= y == mn; st = aborts([&] { auto r = abs(p); sink = sizeof(r) != 0; }); });
      NOTE(c, "  abs of " << show(a) << (sc ? " component " : ", component ") << e); decide(st, sc ? a[e] == mn : any, sc ? "abs(scalar)" : "abs(vector)"); c.nontrivial(any); };
    if (c.coin()) run(int()); else run((long long)0);
  }
}
void abs_min(Case &c) { switch (c.below(4)) { case 0: abs_n<1>(c); break; case 1: abs_n<2>(c); break; case 2: abs_n<3>(c); break; default: abs_n<4>(c); } }
#define NM(X) ((const char *)[] { static std::string s = std::string("C08.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("index"), 1, indexing);
PBT_PROP(NM("null_view"), 0.6, null_views);
PBT_PROP(NM("iterator"), 1, iterators); PBT_PROP(NM("odd_iterator"), 0.6, odd_iterators);
PBT_PROP(NM("runtime_swizzle"), 0.6, swizzles);
#if PART < 4
PBT_PROP(NM("precondition"), 0.7, preconds);
#endif
#if PART == 0
PBT_PROP(NM("absolute_minimum"), 0.3, abs_min);
#endif
#if PART < 2
PBT_PROP(NM("modulus"), 0.5, moduli);
#endif
#else
template <class E, size_t C, size_t R> void mat(Case &c) {
  struct { E g0[2]; basic_matrix<E, C, R> m; E g1[2]; } g{{1, 2}, {}, {3, 4}}; E ref[C][R]; for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) g.m[i][j] = ref[i][j] = E(1 + i * R + j); auto &m = g.m; const auto &cm = m; size_t e = c.below(C), f = c.below(R);
  switch (c.below(9)) {
    case 0: with_index(c, (int)C, "matrix column", [&](auto i, bool in) { E x = m[i][f]; if (in) CK(x == ref[(size_t)(ll)i][f], "wrong column"); }); break; case 1: with_index(c, (int)C, "const matrix column", [&](auto i, bool in) { E x = cm[i][f]; if (in) CK(x == ref[(size_t)(ll)i][f], "wrong column"); }); break;
    case 2: with_index(c, (int)R, "matrix row()", [&](auto j, bool in) { auto r = cm.row(j); if (in) CK(r[e] == ref[e][(size_t)(ll)j], "wrong row"); }); break; case 3: with_index(c, (int)R, "element of a column", [&](auto j, bool in) { E x = m[e][j]; if (in) CK(x == ref[e][(size_t)(ll)j], "wrong element"); }); break;
    case 4: with_index(c, (int)R, "write to an element of a column", [&](auto j, bool in) { m[e][j] = E(-1); if (in) ref[e][(size_t)(ll)j] = -1; }); break; case 5: with_index(c, (int)C, "write to a column", [&](auto i, bool in) { m[i] = basic_vector<E, R>(E(-2)); if (in) for (size_t j = 0; j < R; ++j) ref[(size_t)(ll)i][j] = -2; }); break;
    case 6: { const E *p = c.coin() ? nullptr : &m[0][0]; bool threw = false, st = aborts([&] { try { basic_matrix<E, C, R> q(p); sink = q[0][0] == 0; } catch (const std::invalid_argument &) { threw = true; } }); CK(!st && threw == (p == nullptr), "matrix constructor from a " << (p ? "good" : "null") << " pointer " << (st ? "stopped" : threw ? "threw" : "did not throw")); c.nontrivial(); break; }
    case 7: { using O = std::conditional_t<std::is_same_v<E, float>, double, float>; O buf[16]{}; const O *p = c.coin() ? nullptr : buf; bool threw = false, st = aborts([&] { try { basic_matrix<E, C, R> q = p; sink = q[0][0] == 0; } catch (const std::invalid_argument &) { threw = true; } }); CK(!st && threw == (p == nullptr), "matrix conversion from a " << (p ? "good" : "null") << " pointer of the other type " << (st ? "stopped" : threw ? "threw" : "did not throw")); c.nontrivial(); break; }
    case 8: with_index(c, (int)R, "element of a const column", [&](auto j, bool in) { E x = cm[e][j]; if (in) CK(x == ref[e][(size_t)(ll)j], "wrong element"); }); break;
  }
  for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) CK(m[i][j] == ref[i][j], "entry " << i << "," << j << " changed"); CK(g.g0[0] == 1 && g.g0[1] == 2 && g.g1[0] == 3 && g.g1[1] == 4, "neighbouring memory changed");
}
template <class E> void mats(Case &c) { switch (c.below(9)) { case 0: mat<E, 2, 2>(c); break; case 1: mat<E, 2, 3>(c); break; case 2: mat<E, 2, 4>(c); break; case 3: mat<E, 3, 2>(c); break; case 4: mat<E, 3, 3>(c); break; case 5: mat<E, 3, 4>(c); break; case 6: mat<E, 4, 2>(c); break; case 7: mat<E, 4, 3>(c); break; default: mat<E, 4, 4>(c); } }
PBT_PROP("C08.matrix.float", 1, mats<float>);
PBT_PROP("C08.matrix.double", 1, mats<double>);
#endif
}
