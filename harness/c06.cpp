// C06: constructors and conversions. PART 0-7: vectors of one element type, 8 and 9: matrices of float and double.
#include "kinds.hpp"
#include <memory>
using namespace dsga;
namespace {
using TL = std::tuple<bool, int, unsigned, ll, ull, sz, float, double>;
#ifdef ALLTYPES
constexpr int NTY = 8; template <int I> using TY = std::tuple_element_t<I, TL>;
#else
constexpr int NTY = 4; constexpr int dty[4] = {0, 1, 3, 6}; template <int I> using TY = std::tuple_element_t<((PART < 8 ? PART : PART - 2) + dty[I % 4]) % 8, TL>;   // over all parts every pair of types at these distances
#endif
#if PART < 8
using T = std::tuple_element_t<PART, TL>;
#else
using T = std::conditional_t<PART == 8, float, double>;
#endif
#ifndef NVC
#define NVC 2
#endif
constexpr unsigned H(unsigned a, unsigned b) { return hmix(hmix(a + 0x9e37u) ^ (b * 0x85ebca6bu + 1)); }

// an element value that converts to the target with a defined result
template <class U> U elem(Case &c) { U x = c.coin() ? gen_small<U>(c, 100) : gen_finite<U>(c); if (!conv_defined<T>(x)) x = std::is_floating_point_v<U> ? U(2.75) : U(3); return x; }

// one constructor argument; N 1-4: that many components, 5: a matrix
template <int N, unsigned S> struct A {
  using U = TY<H(S, 1) % NTY>;
  static constexpr int K = N == 1 ? (H(S, 2) % 2 ? 9 : (int)(H(S, 3) % 9)) : (int)(H(S, 3) % 9);
  static constexpr bool cst = H(S, 4) % 2;
  static constexpr size_t MC = 2 + H(S, 5) % 3, MR = 2 + H(S, 6) % 3;
  using M = basic_matrix<std::conditional_t<H(S, 7) % 2 != 0, float, double>, MC, MR>;
  static constexpr size_t count = N == 5 ? MC * MR : N;
  template <int KK> struct Vec { Opnd<KK, U, (size_t)(N == 5 ? 1 : N)> o; Vec(Case &c, std::vector<T> &e) : o([&] { std::array<U, (size_t)(N == 5 ? 1 : N)> a; for (auto &x : a) x = elem<U>(c); return a; }()) { for (auto x : o.m) e.push_back(static_cast<T>(x)); NOTE(c, "  " << tname<U>() << " " << kind_name(KK) << " " << show(o.m)); } auto &get() { return o.get(); } bool intact() { return o.intact(); } };
  struct Sc { U v; Sc(Case &c, std::vector<T> &e) : v(elem<U>(c)) { e.push_back(static_cast<T>(v)); NOTE(c, "  " << tname<U>() << " scalar " << show(v)); } auto &get() { return v; } bool intact() { return true; } };
  struct Mt { M m{}; Mt(Case &c, std::vector<T> &e) { for (size_t i = 0; i < MC; ++i) for (size_t j = 0; j < MR; ++j) { auto x = elem<std::remove_cvref_t<decltype(m[0][0])>>(c); m[i][j] = x; e.push_back(static_cast<T>(x)); } NOTE(c, "  matrix of " << MC << " columns, " << MR << " rows " << show(to_array(m))); } auto &get() { return m; } bool intact() { return true; } };
  using H_ = typename std::conditional_t<N == 5, std::type_identity<Mt>, std::conditional_t<K == 9, std::type_identity<Sc>, std::type_identity<Vec<K == 9 ? 0 : K>>>>::type;
  H_ h; A(Case &c, std::vector<T> &e) : h(c, e) {}
  decltype(auto) get() { if constexpr (cst) return std::as_const(h.get()); else return (h.get()); }
  using type = std::remove_reference_t<decltype(std::declval<H_ &>().get())>;
};
template <class... As> struct Args { std::tuple<As...> t; };

// checks that target type V built from the arguments holds the first n flattened components
template <class V> std::vector<T> flat(const V &v) { std::vector<T> r; if constexpr (requires { v.column_length(); }) { for (int i = 0; i < v.length(); ++i) for (int j = 0; j < v.column_length(); ++j) r.push_back(v[i][j]); } else for (size_t i = 0; i < V::size(); ++i) r.push_back(v[i]); return r; }
void expect(const std::vector<T> &got, const std::vector<T> &e, const char *how) {
  for (size_t i = 0; i < got.size(); ++i) CK(same(T(got[i]), T(e[i])), how << ": component " << i << " is " << show(T(got[i])) << ", expected " << show(T(e[i])));
}
template <class V, class V2, class... As> void build(Case &c) {
  std::vector<T> e; NOTE(c, (flat(V{}).size()) << " components of " << tname<T>() << " from:");
  // braces give left-to-right evaluation of the argument generators
  struct All { std::tuple<std::unique_ptr<As>...> p; All(Case &c, std::vector<T> &e) : p{std::make_unique<As>(c, e)...} {} } all(c, e);
  std::apply([&](auto &...p) {
    V v(p->get()...); expect(flat(v), e, "V(args)");
    V w{p->get()...}; expect(flat(w), e, "V{args}");
    if constexpr (!std::is_void_v<V2>) { V2 o(p->get()...); expect(flat(o), e, "owning view"); CK(o.data() == o.store, "an owning view refers to foreign storage"); }
    CK((p->h.intact() && ...), "an argument was modified");
  }, all.p);
  c.nontrivial(e.size() > 1);
}
using RunFn = void (*)(Case &);

#if PART < 8
// every list of component counts that is valid for a C-component vector (5 stands for a matrix), without the one-component fill
struct Lists { int n = 0; int len[64]{}; int l[64][4]{}; };
constexpr void rec(Lists &o, int *cur, int depth, int have, int C) {
  for (int a = 1; a <= 5; ++a) { cur[depth] = a; int h = have + (a == 5 ? 16 : a);
    if (h >= C) { if (depth == 0 && a == 1) continue; o.len[o.n] = depth + 1; for (int i = 0; i <= depth; ++i) o.l[o.n][i] = cur[i]; ++o.n; } else rec(o, cur, depth + 1, h, C); }
}
template <int C> constexpr Lists lists = [] { Lists o; int cur[4]{}; rec(o, cur, 0, 0, C); return o; }();
template <int C, int IDX, int V> void one(Case &c) {
  constexpr unsigned S = H(H(PART * 8 + C, IDX), V);
  [&]<size_t... I>(std::index_sequence<I...>) { build<basic_vector<T, C>, view_vector<T, C>, A<lists<C>.l[IDX][I], H(S, I + 10)>...>(c); }(std::make_index_sequence<lists<C>.len[IDX]>{});
}
template <int C, int V, unsigned S = H(C * 64 + V, PART + 77)> void fill(Case &c) {   // one component fills the vector
  using X = A<1, S>; std::vector<T> e; X x(c, e); e.resize(C, e[0]); NOTE(c, "  fills " << C);
  basic_vector<T, C> v(x.get()); expect(flat(v), e, "fill"); basic_vector<T, C> w{x.get()}; expect(flat(w), e, "fill"); view_vector<T, C> o(x.get()); expect(flat(o), e, "owning view fill");
  CK(x.h.intact(), "the argument was modified"); c.nontrivial(e[0] != T(0));
}
std::vector<RunFn> table() {
  std::vector<RunFn> r;
  auto per = [&]<int C>() {
    [&]<size_t... I>(std::index_sequence<I...>) { ([&] { constexpr int ix = (int)I / NVC, v = (int)I % NVC; r.push_back(one<C, ix, v>); }(), ...); }(std::make_index_sequence<(size_t)lists<C>.n * NVC>{});
    [&]<size_t... I>(std::index_sequence<I...>) { (r.push_back(fill<C, (int)I>), ...); }(std::make_index_sequence<24>{});
  };
  per.template operator()<1>(); per.template operator()<2>(); per.template operator()<3>(); per.template operator()<4>(); return r;
}
void vectors(Case &c) { static const auto t = table(); t[c.below(t.size())](c); }

// conversion of a whole vector between element types, implicit exactly where allowed
template <bool W, class U, size_t C, class D> auto &base_of(vector_base<W, U, C, D> &v) { return v; }
template <bool W, class U, size_t C, class D> auto &base_of(const vector_base<W, U, C, D> &v) { return v; }
template <class U, int C, int K> void conv(Case &c) {
  std::array<U, C> a; for (auto &x : a) x = elem<U>(c); Opnd<K, U, C> o(a); std::vector<T> e; for (auto x : o.m) e.push_back(static_cast<T>(x)); NOTE(c, tname<U>() << show(o.m) << " " << kind_name(K) << " -> " << tname<T>());
  using S = std::remove_reference_t<decltype(o.get())>; using V = basic_vector<T, C>; using W = view_vector<T, C>;
  constexpr bool lossless = !std::is_same_v<T, bool> && !std::is_same_v<U, bool> && std::is_same_v<std::common_type_t<T, U>, T>;
  constexpr bool self = std::is_same_v<std::remove_cvref_t<S>, V>;
  constexpr bool imp = std::is_convertible_v<S &, V>; CK(imp == (lossless || self), "implicit conversion from " << tname<U>() << " to " << tname<T>() << " is " << (imp ? "possible" : "not possible"));
  V v(o.get()); expect(flat(v), e, "explicit conversion");
  if constexpr (lossless || self) { V i = o.get(); expect(flat(i), e, "implicit conversion"); V t{}; t = o.get(); expect(flat(t), e, "assignment"); auto f = [](V p) { return p; }; expect(flat(f(o.get())), e, "argument passing"); }
  else { constexpr bool asg = std::is_assignable_v<V &, S &>; CK(!asg, "assignment from " << tname<U>() << " to " << tname<T>() << " compiles"); }
  constexpr bool wimp = std::is_convertible_v<S &, W>; constexpr bool wsame = std::is_same_v<std::remove_cvref_t<S>, W>; CK(wimp == wsame, "implicit conversion to an owning view");
  // the same through a reference to the common base class
  { auto &b = base_of(o.get()); V vb(b); expect(flat(vb), e, "explicit conversion from the base"); if constexpr (lossless) { V i = b; expect(flat(i), e, "implicit conversion from the base"); V t{}; t = b; expect(flat(t), e, "assignment from the base"); W w(b); expect(flat(w), e, "owning view from the base"); W x(std::as_const(b)); expect(flat(x), e, "owning view from the base"); CK(!(std::is_convertible_v<decltype(b), W>), "implicit conversion of the base to an owning view"); } }
  if constexpr (C > 1) { constexpr bool more = std::is_constructible_v<basic_vector<T, (C < 4 ? C + 1 : 4)>, S &>; CK(C == 4 || !more, "a vector can be built from too few components"); }
  CK(o.intact(), "the source was modified"); c.nontrivial();
}
std::vector<RunFn> conv_table() { std::vector<RunFn> r; auto k = [&]<int I, int C>() { [&]<size_t... K>(std::index_sequence<K...>) { (r.push_back(conv<TY<I>, C, (int)K>), ...); }(std::make_index_sequence<9>{}); };
  [&]<size_t... I>(std::index_sequence<I...>) { (([&] { k.template operator()<(int)I, 1>(); k.template operator()<(int)I, 2>(); k.template operator()<(int)I, 3>(); k.template operator()<(int)I, 4>(); }()), ...); }(std::make_index_sequence<NTY>{}); return r; }
void conversions(Case &c) { static const auto t = conv_table(); t[c.below(t.size())](c); }

// arrays
template <size_t C> void arrays_n(Case &c) {
  std::array<T, C> a; for (auto &x : a) x = gen_any<T>(c); T raw[C]; std::copy(a.begin(), a.end(), raw); std::vector<T> e(a.begin(), a.end()); NOTE(c, tname<T>() << show(a));
  expect(flat(to_vector(a)), e, "to_vector(std::array)"); expect(flat(to_vector(raw)), e, "to_vector(C array)"); CK(same_arr(to_array(to_vector(a)), a), "to_array(to_vector(a)) differs from a");
  { const auto ca = a; auto v = to_vector(ca); a[0] = T(a[0] == T(0)); expect(flat(v), e, "vector after its source array changed"); a[0] = ca[0]; }
  with_kind<T, C>(c, a, [&](auto &v, const auto &m) { auto r = to_array(v); static_assert(std::is_same_v<decltype(r), std::array<T, C>>); CK(same_arr(r, m), "to_array gives " << show(r) << ", expected " << show(m)); expect(flat(to_vector(to_array(v))), std::vector<T>(m.begin(), m.end()), "round trip"); });
  basic_view<false, T, C> w(raw); CK(same_arr(to_array(w), a), "view of a C array"); c.nontrivial(C > 1);
}
void arrays(Case &c) { switch (c.below(4)) { case 0: arrays_n<1>(c); break; case 1: arrays_n<2>(c); break; case 2: arrays_n<3>(c); break; default: arrays_n<4>(c); } }

// which argument lists compile: every list of up to four arguments of 1, 2, 3, 4 components or a matrix
template <int N, unsigned S> using AT = typename A<N, S>::type;
constexpr int digit_of(int base, int i) { for (int k = 0; k < i; ++k) base /= 5; return base % 5 + 1; }
template <int C, int CODE> constexpr int allowed() {       // bit 0 compiles as a vector, bit 1 as an owning view, bit 2 should
  constexpr int L = CODE < 5 ? 1 : CODE < 30 ? 2 : CODE < 155 ? 3 : 4; constexpr int base = CODE - (L == 1 ? 0 : L == 2 ? 5 : L == 3 ? 30 : 155);
  constexpr unsigned S = H(CODE, C * 8 + PART);
  return []<size_t... I>(std::index_sequence<I...>) {
    constexpr int tot = (int)(A<digit_of(base, I), H(S, I)>::count + ...); constexpr int prev = tot - (int)A<digit_of(base, L - 1), H(S, L - 1)>::count;
    constexpr bool should = (prev < C && tot >= C) || (L == 1 && digit_of(base, 0) == 1);
    return (std::is_constructible_v<basic_vector<T, C>, AT<digit_of(base, I), H(S, I)> &...> ? 1 : 0) + (std::is_constructible_v<view_vector<T, C>, AT<digit_of(base, I), H(S, I)> &...> ? 2 : 0) + (should ? 4 : 0);
  }(std::make_index_sequence<L>{});
}
#ifndef NCODE
#define NCODE 155
#endif
template <int C> constexpr auto allow_table = []<size_t... I>(std::index_sequence<I...>) { return std::array<signed char, sizeof...(I)>{(signed char)allowed<C, (int)I>()...}; }(std::make_index_sequence<NCODE>{});
void compiles(Case &c) {
  int C = 1 + (int)c.below(4); int code = (int)c.below(NCODE); int r = C == 1 ? allow_table<1>[code] : C == 2 ? allow_table<2>[code] : C == 3 ? allow_table<3>[code] : allow_table<4>[code];
  std::string s; int L = code < 5 ? 1 : code < 30 ? 2 : code < 155 ? 3 : 4, b = code - (L == 1 ? 0 : L == 2 ? 5 : L == 3 ? 30 : 155); for (int i = 0; i < L; ++i) { int d = b % 5 + 1; b /= 5; s += d == 5 ? " matrix" : " " + std::to_string(d); }
  NOTE(c, C << " components from arguments of" << s);
  CK(((r & 1) != 0) == ((r & 4) != 0), C << "-component vector from arguments with" << s << " components " << ((r & 1) ? "compiles" : "does not compile"));
  CK(((r & 2) != 0) == ((r & 4) != 0), C << "-component owning view from arguments with" << s << " components " << ((r & 2) ? "compiles" : "does not compile")); c.nontrivial();
}
#else
// matrices: argument counts drawn by a hash until enough
template <unsigned S, int NEED> constexpr auto mlist = [] { struct R { int n = 0; int a[17]{}; } r; int have = 0; int style = (int)(H(S, 99) % 6);
  while (have < NEED) { int k = style < 4 ? style + 1 : 1 + (int)(H(S, 200 + r.n) % 4); if (style == 5 && H(S, 300 + r.n) % 2) k = 1; r.a[r.n++] = k; have += k; } return r; }();
template <size_t C, size_t R, int V> void one(Case &c) {
  constexpr unsigned S = H(H(PART * 16 + C * 4 + R, 5), V); constexpr auto l = mlist<S, (int)(C * R)>;
  [&]<size_t... I>(std::index_sequence<I...>) { build<basic_matrix<T, C, R>, void, A<l.a[I], H(S, I + 10)>...>(c); }(std::make_index_sequence<l.n>{});
}
template <size_t C, size_t R> void columns(Case &c) {      // the usual forms: all scalars, all columns
  T a[C * R]; for (auto &x : a) x = gen_any<T>(c); std::vector<T> e(a, a + C * R); NOTE(c, C << "x" << R << " " << tname<T>() << " " << show(e));
  [&]<size_t... I>(std::index_sequence<I...>) { basic_matrix<T, C, R> m(a[I]...); expect(flat(m), e, "scalars"); }(std::make_index_sequence<C * R>{});
  [&]<size_t... I>(std::index_sequence<I...>) { basic_matrix<T, C, R> m(basic_view<false, T, R>((const T *)a + I * R)...); expect(flat(m), e, "column views"); basic_matrix<T, C, R> k{basic_vector<T, R>(basic_view<false, T, R>((const T *)a + I * R))...}; expect(flat(k), e, "columns"); }(std::make_index_sequence<C>{});
  std::array<T, C * R> arr; std::copy(a, a + C * R, arr.begin()); std::array<T, C * R + 3> big{}; std::copy(a, a + C * R, big.begin()); T raw[C * R + 1]{}; std::copy(a, a + C * R, raw);
  expect(flat(to_matrix<C, R>(arr)), e, "to_matrix(std::array)"); expect(flat(to_matrix<C, R>(big)), e, "to_matrix(longer array)"); expect(flat(to_matrix<C, R>(raw)), e, "to_matrix(C array)"); expect(flat(to_matrix<C, R>(a)), e, "to_matrix(C array)");
  CK(same_arr(to_array(to_matrix<C, R>(arr)), arr), "to_array(to_matrix(a)) differs from a"); expect(flat(to_matrix<C, R>(to_array(to_matrix<C, R>(arr)))), e, "round trip");
  auto heap = std::make_unique<T[]>(C * R); std::copy(a, a + C * R, heap.get()); const T *cp = heap.get(); basic_matrix<T, C, R> p(cp); expect(flat(p), e, "from pointer"); basic_matrix<T, C, R> q = cp; expect(flat(q), e, "implicit from pointer");
  { T *mp = heap.get(); basic_matrix<T, C, R> q2((const T *)mp); mp[0] = T(1) + mp[0]; expect(flat(q2), e, "matrix after the pointed-to data changed"); }
  using O = std::conditional_t<std::is_same_v<T, float>, double, float>; auto oh = std::make_unique<O[]>(C * R); std::vector<T> oe; for (size_t i = 0; i < C * R; ++i) { oh[i] = conv_defined<O>(a[i]) ? (O)a[i] : O(1); if (!conv_defined<T>(oh[i])) oh[i] = 1; oe.push_back((T)oh[i]); }
  basic_matrix<T, C, R> om((const O *)oh.get()); expect(flat(om), oe, "from pointer to the other type");
  bool threw = false; try { const T *np = nullptr; basic_matrix<T, C, R> bad(np); (void)bad; } catch (const std::invalid_argument &) { threw = true; } CK(threw, "a null pointer was accepted");
  threw = false; try { const O *np = nullptr; basic_matrix<T, C, R> bad(np); (void)bad; } catch (const std::invalid_argument &) { threw = true; } CK(threw, "a null pointer of the other type was accepted");
  c.nontrivial();
}
template <size_t C, int V, unsigned S = H(C * 64 + V, PART + 77)> void diag(Case &c) {
  using X = A<1, S>; std::vector<T> e; X x(c, e); basic_matrix<T, C, C> m(x.get()); for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < C; ++j) CK(same(m[i][j], i == j ? e[0] : T(0)), "diagonal constructor, column " << i << " row " << j << ": " << show(m[i][j])); c.nontrivial(e[0] != 0);
}
template <class U, size_t C, size_t R, size_t C2, size_t R2> void from_matrix(Case &c) {
  basic_matrix<U, C2, R2> s{}; for (size_t i = 0; i < C2; ++i) for (size_t j = 0; j < R2; ++j) { s[i][j] = gen_any<U>(c); if (!conv_defined<T>(s[i][j])) s[i][j] = 2; } NOTE(c, C2 << "x" << R2 << " " << tname<U>() << " -> " << C << "x" << R << " " << show(to_array(s)));
  auto ck = [&](const basic_matrix<T, C, R> &m, const char *how) { for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { T e = i < C2 && j < R2 ? static_cast<T>(s[i][j]) : (C == R && i == j) ? T(1) : T(0); CK(same(m[i][j], e), how << ": column " << i << " row " << j << " is " << show(m[i][j]) << ", expected " << show(e)); } };
  using M = basic_matrix<T, C, R>; ck(M(s), "M(matrix)"); ck(M{s}, "M{matrix}");
  using S = basic_matrix<U, C2, R2>; constexpr bool should = C == C2 && R == R2 && (std::is_same_v<T, U> || std::is_same_v<T, double>); constexpr bool imp = std::is_convertible_v<S, M>, asg = std::is_assignable_v<M &, S &>;
  CK(imp == should, "implicit conversion " << (imp ? "compiles" : "does not compile")); CK(asg == should, "assignment " << (asg ? "compiles" : "does not compile"));
  if constexpr (should) { M a = s; ck(a, "implicit conversion"); M b{}; auto &z = (b = s); CK(&z == &b, "assignment returns something else"); ck(b, "assignment"); }
  c.nontrivial();
}
std::vector<RunFn> table() {
  std::vector<RunFn> r;
  auto shape = [&]<size_t C, size_t R>() { r.push_back(columns<C, R>); r.push_back(columns<C, R>); r.push_back(columns<C, R>);
    [&]<size_t... V>(std::index_sequence<V...>) { (r.push_back(one<C, R, (int)V>), ...); }(std::make_index_sequence<NVC * 4>{}); };
  shape.template operator()<2, 2>(); shape.template operator()<2, 3>(); shape.template operator()<2, 4>(); shape.template operator()<3, 2>(); shape.template operator()<3, 3>(); shape.template operator()<3, 4>(); shape.template operator()<4, 2>(); shape.template operator()<4, 3>(); shape.template operator()<4, 4>();
  auto d = [&]<size_t C>() { [&]<size_t... V>(std::index_sequence<V...>) { (r.push_back(diag<C, (int)V>), ...); }(std::make_index_sequence<20>{}); }; d.template operator()<2>(); d.template operator()<3>(); d.template operator()<4>(); return r;
}
std::vector<RunFn> mm_table() { std::vector<RunFn> r; [&]<size_t... I>(std::index_sequence<I...>) { ([&] { constexpr size_t a = 2 + I % 3, b = 2 + I / 3 % 3, x = 2 + I / 9 % 3, y = 2 + I / 27; r.push_back(from_matrix<float, a, b, x, y>); r.push_back(from_matrix<double, a, b, x, y>); }(), ...); }(std::make_index_sequence<81>{}); return r; }
void vectors(Case &c) { static const auto t = table(); t[c.below(t.size())](c); }
void conversions(Case &c) { static const auto t = mm_table(); t[c.below(t.size())](c); }
// which argument lists compile
template <size_t C, size_t R, int V> constexpr int allowed() {
  constexpr unsigned S = H(H(PART * 16 + C * 4 + R, 6), V); constexpr auto l = [] { struct Q { int n = 0; int a[20]{}; } q; int target = (int)(C * R) - 3 + (int)(H(S, 1) % 8), have = 0; if (V % 7 == 0) target = 1; while (have < target && q.n < 19) { int k = 1 + (int)(H(S, 200 + q.n) % (V % 2 ? 4 : 5)); q.a[q.n++] = k; have += k == 5 ? 4 : k; } return q; }();
  return []<size_t... I>(std::index_sequence<I...>) {
    constexpr int tot = (int)(A<l.a[I], H(S, I)>::count + ...); constexpr int prev = tot - (int)A<l.a[l.n - 1], H(S, l.n - 1)>::count; constexpr bool mat = ((l.a[I] == 5) || ...);
    constexpr bool should = mat ? l.n == 1 : ((prev < (int)(C * R) && tot >= (int)(C * R)) || (l.n == 1 && l.a[0] == 1 && C == R));
    return (std::is_constructible_v<basic_matrix<T, C, R>, typename A<l.a[I], H(S, I)>::type &...> ? 1 : 0) + (should ? 2 : 0) + 4 * l.n;
  }(std::make_index_sequence<l.n>{});
}
template <size_t C, size_t R> constexpr auto allow_table = []<size_t... I>(std::index_sequence<I...>) { return std::array<int, sizeof...(I)>{allowed<C, R, (int)I>()...}; }(std::make_index_sequence<50>{});
void compiles(Case &c) {
  int s = (int)c.below(9), v = (int)c.below(50); int r = 0;
  switch (s) { case 0: r = allow_table<2, 2>[v]; break; case 1: r = allow_table<2, 3>[v]; break; case 2: r = allow_table<2, 4>[v]; break; case 3: r = allow_table<3, 2>[v]; break; case 4: r = allow_table<3, 3>[v]; break; case 5: r = allow_table<3, 4>[v]; break; case 6: r = allow_table<4, 2>[v]; break; case 7: r = allow_table<4, 3>[v]; break; default: r = allow_table<4, 4>[v]; }
  NOTE(c, "shape number " << s << ", list " << v << " of " << r / 4 << " arguments"); CK((r & 1) == ((r >> 1) & 1), "matrix from argument list " << v << " (shape number " << s << ") " << ((r & 1) ? "compiles" : "does not compile")); c.nontrivial();
}
void arrays(Case &c) { vectors(c); }
#endif
#define NM(X) ((const char *)[] { static std::string s = std::string("C06.") + (PART < 8 ? "vector." : "matrix.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("flatten"), 1, vectors);
PBT_PROP(NM("convert"), 1, conversions);
PBT_PROP(NM("arrays"), 0.5, arrays);
PBT_PROP(NM("compiles"), 0.05, compiles);
}
