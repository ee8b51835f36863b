// C09: relational and boolean functions, == and !=. PART 0..7: element types; PART 8: matrices.
#include "kinds.hpp"
namespace {
using namespace dsga;
// a value related to x: equal, a neighbour, sign-flipped zero, converted through a narrower type, or unrelated
template <class T> T gen_near(Case &c, T x) {
  if constexpr (std::is_same_v<T, bool>) return c.coin();
  else switch (c.below(6)) {
    case 0: case 1: return x;
    case 2: if constexpr (std::is_floating_point_v<T>) return std::nextafter(x, std::numeric_limits<T>::infinity()); else return x == std::numeric_limits<T>::max() ? x : T(x + 1);
    case 3: if constexpr (std::is_floating_point_v<T>) return std::nextafter(x, -std::numeric_limits<T>::infinity()); else return x == std::numeric_limits<T>::min() ? x : T(x - 1);
    case 4: if constexpr (std::is_floating_point_v<T>) return -x; else return T(0) == x ? x : std::is_signed_v<T> && x == std::numeric_limits<T>::min() ? x : T(T(0) - x);
    default: return gen_any<T>(c);
  }
}
template <class T, size_t N> void gen_two(Case &c, std::array<T, N> &a, std::array<T, N> &b) {
  int m = (int)c.below(4); for (auto &x : a) x = m == 0 ? gen_small<T>(c, 3) : gen_any<T>(c);
  if constexpr (std::is_floating_point_v<T>) if (c.chance(1, 6)) a[c.below(N)] = std::numeric_limits<T>::quiet_NaN();
  for (size_t i = 0; i < N; ++i) b[i] = m == 3 ? a[i] : gen_near<T>(c, a[i]);
  if (m == 3 && c.coin()) { size_t i = c.below(N); b[i] = gen_near<T>(c, a[i]); }
  if constexpr (std::is_floating_point_v<T>) if (c.chance(1, 6)) b[c.below(N)] = c.coin() ? std::numeric_limits<T>::quiet_NaN() : T(-0.0);
}
template <class T> bool scalar_cmp(int op, T x, T y) { switch (op) { case 0: return x < y; case 1: return x <= y; case 2: return x > y; case 3: return x >= y; case 4: return x == y; default: return x != y; } }
template <class A, class B> bool eq_model(A x, B y) { using X = std::common_type_t<A, B>; return (X)x == (X)y; }
const char *OPN[] = {"lessThan", "lessThanEqual", "greaterThan", "greaterThanEqual", "equal", "notEqual"};
#if PART < 8
using T = std::tuple_element_t<PART, std::tuple<bool, int, unsigned, ll, ull, sz, float, double>>;
constexpr bool BOOL = std::is_same_v<T, bool>;
template <int OP> auto call(const auto &x, const auto &y) {
  if constexpr (OP == 0) return lessThan(x, y); else if constexpr (OP == 1) return lessThanEqual(x, y); else if constexpr (OP == 2) return greaterThan(x, y); else if constexpr (OP == 3) return greaterThanEqual(x, y); else if constexpr (OP == 4) return equal(x, y); else return notEqual(x, y);
}
template <int OP, size_t N> void rel_n(Case &c) {
  std::array<T, N> a, b; gen_two(c, a, b); NOTE(c, OPN[OP] << " of " << show(a) << " and " << show(b) << " of " << tname<T>()); bool t = false, f = false;
  with_pair<T, T, N, N>(c, a, b, [&](auto &x, const auto &mx, auto &y, const auto &my) {
    auto r = res_arr<bool, N>(call<OP>(x, y));
    for (size_t i = 0; i < N; ++i) { bool w = scalar_cmp<T>(OP, mx[i], my[i]); (w ? t : f) = true; CK(r[i] == w, OPN[OP] << ": component " << i << " for " << show(mx[i]) << " and " << show(my[i]) << " is " << r[i]); CK(call<OP>(T(mx[i]), T(my[i])) == w, OPN[OP] << " of the scalars " << show(mx[i]) << " and " << show(my[i]) << " is not " << w); }
  });
  c.nontrivial(N == 1 || (t && f));
}
template <int OP> void rel(Case &c) { switch (c.below(4)) { case 0: rel_n<OP, 1>(c); break; case 1: rel_n<OP, 2>(c); break; case 2: rel_n<OP, 3>(c); break; default: rel_n<OP, 4>(c); } }
void relational(Case &c) { if constexpr (BOOL) { c.coin() ? rel<4>(c) : rel<5>(c); } else switch (c.below(6)) { case 0: rel<0>(c); break; case 1: rel<1>(c); break; case 2: rel<2>(c); break; case 3: rel<3>(c); break; case 4: rel<4>(c); break; default: rel<5>(c); } }

// == and != between any two kinds and element types; the same object; one component against scalars
template <class U, size_t N> void eq_n(Case &c) {
  constexpr bool allowed = std::is_same_v<T, U> || (!BOOL && !std::is_same_v<U, bool> && (std::is_same_v<std::common_type_t<T, U>, T> || std::is_same_v<std::common_type_t<T, U>, U>));
  if constexpr (allowed) {
    std::array<T, N> a; std::array<U, N> b; { std::array<T, N> bb; gen_two(c, a, bb); for (size_t i = 0; i < N; ++i) if (conv_defined<U>(bb[i])) b[i] = (U)bb[i]; else b[i] = gen_any<U>(c); }
    if (c.chance(1, 3)) for (size_t i = 0; i < N; ++i) { if (conv_defined<U>(a[i])) b[i] = (U)a[i]; else { a[i] = T(1); b[i] = U(1); } }
    NOTE(c, tname<T>() << " " << show(a) << " == " << tname<U>() << " " << show(b)); bool saw = false;
    with_pair<T, U, N, N>(c, a, b, [&](auto &x, const auto &mx, auto &y, const auto &my) {
      bool w = true; for (size_t i = 0; i < N; ++i) w = w && eq_model(mx[i], my[i]); saw = w;
      CK((x == y) == w, "x == y is " << !w); CK((y == x) == w, "y == x is " << !w); CK((x != y) == !w, "x != y is " << w); CK((y != x) == !w, "y != x is " << w);
      bool self = true; for (size_t i = 0; i < N; ++i) self = self && mx[i] == mx[i]; CK((x == x) == self, "x == x is " << !self); CK((x != x) == !self, "x != x is " << self);
      if constexpr (N == 1) { CK((x == my[0]) == w, "one component == scalar is " << !w); CK((mx[0] == y) == w, "scalar == one component is " << !w); CK((x != my[0]) == !w, "one component != scalar is " << w); CK((mx[0] != y) == !w, "scalar != one component is " << w); }
    }); c.nontrivial(N > 1 || saw);
  } else { (void)c; }
}
template <class U> void eq_u(Case &c) { switch (c.below(4)) { case 0: eq_n<U, 1>(c); break; case 1: eq_n<U, 2>(c); break; case 2: eq_n<U, 3>(c); break; default: eq_n<U, 4>(c); } }
void equality(Case &c) {
  if constexpr (BOOL) eq_u<bool>(c); else switch (c.below(8)) { case 0: eq_u<int>(c); break; case 1: eq_u<unsigned>(c); break; case 2: eq_u<ll>(c); break; case 3: eq_u<ull>(c); break; case 4: eq_u<sz>(c); break; case 5: eq_u<float>(c); break; case 6: eq_u<double>(c); break; default: eq_u<T>(c); }
}
// equality is an equivalence over a small world of objects holding related values
template <size_t N> void equiv_n(Case &c) {
  std::array<T, N> m; for (auto &x : m) x = c.coin() ? gen_small<T>(c, 2) : gen_finite<T>(c); std::array<T, N> m2 = m; if (c.coin()) { size_t i = c.below(N); m2[i] = gen_near<T>(c, m[i]); }
  NOTE(c, "equality over kinds, " << show(m) << " and " << show(m2)); bool want = same_arr(m, m2) || numeq_arr(m, m2); for (size_t i = 0; i < N; ++i) if (m2[i] != m2[i]) want = false;
  Opnd<0, T, N> p(m); Opnd<1, T, N> q(m); Opnd<2, T, N> r(m); Opnd<3, T, N> s(m); Opnd<4, T, N> t(m2); Opnd<5, T, N> u(m2); Opnd<6, T, N> v(m2);
  auto same_side = [&](const auto &...x) { auto f = [&](const auto &y) { return ((y == x) && ...); }; return (f(x) && ...); };
  auto cross = [&](const auto &y) { return (y == t.get()) == want && (y == u.get()) == want && (y == v.get()) == want && (y != t.get()) == !want && (u.get() == y) == want && (v.get() != y) == !want; };
  CK(same_side(p.get(), q.get(), r.get(), s.get()), "objects of different kinds holding the same values are not all =="); CK(cross(p.get()) && cross(q.get()) && cross(r.get()) && cross(s.get()), "== between kinds is not " << want); c.nontrivial();
}
void equivalence(Case &c) { switch (c.below(4)) { case 0: equiv_n<1>(c); break; case 1: equiv_n<2>(c); break; case 2: equiv_n<3>(c); break; default: equiv_n<4>(c); } }
#define NM(X) ((const char *)[] { static std::string s = std::string("C09.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("relational"), 1, relational);
PBT_PROP(NM("equality"), 1, equality);
PBT_PROP(NM("equality_kinds"), 0.4, equivalence);
#if PART == 0
template <size_t N> void boolean_n(Case &c) {
  std::array<bool, N> a, b; int m = (int)c.below(4); for (size_t i = 0; i < N; ++i) { a[i] = m == 0 ? true : m == 1 ? false : c.coin(); b[i] = c.coin(); } if (m < 2 && c.coin()) { size_t i = c.below(N); a[i] = !a[i]; }
  NOTE(c, "boolean functions of " << show(a) << " and " << show(b));
  with_pair<bool, bool, N, N>(c, a, b, [&](auto &x, const auto &mx, auto &y, const auto &my) {
    bool an = false, al = true; for (bool z : mx) { an |= z; al &= z; } auto &cx = std::as_const(x); auto &cy = std::as_const(y);
    CK(any(x) == an && any(cx) == an, "any is " << !an); CK(all(x) == al && all(cx) == al, "all is " << !al); CK(none(cx) == !an && none(x) == !an, "none is " << an);
    auto n = res_arr<bool, N>(compNot(cx)), o = res_arr<bool, N>(compOr(cx, cy)), d = res_arr<bool, N>(compAnd(cx, cy)), n2 = res_arr<bool, N>(logicalNot(cx));
    for (size_t i = 0; i < N; ++i) {
      CK(n[i] == !mx[i] && n2[i] == !mx[i], "negation: component " << i); CK(o[i] == (mx[i] || my[i]), "compOr: component " << i); CK(d[i] == (mx[i] && my[i]), "compAnd: component " << i);
      CK(compNot((bool)mx[i]) == !mx[i] && compOr((bool)mx[i], (bool)my[i]) == (mx[i] || my[i]) && compAnd((bool)mx[i], (bool)my[i]) == (mx[i] && my[i]) && any((bool)mx[i]) == mx[i] && all((bool)mx[i]) == mx[i] && none((bool)mx[i]) == !mx[i] && logicalNot((bool)mx[i]) == !mx[i], "boolean functions of scalars");
      CK(equal((bool)mx[i], (bool)my[i]) == (mx[i] == my[i]) && notEqual((bool)mx[i], (bool)my[i]) == (mx[i] != my[i]), "equal / notEqual of bools");
    }
    CK((compNot(compAnd(cx, cy)) == compOr(compNot(cx), compNot(cy))), "De Morgan"); c.nontrivial(N > 1 ? an != al : true);
  });
}
void boolean(Case &c) { switch (c.below(4)) { case 0: boolean_n<1>(c); break; case 1: boolean_n<2>(c); break; case 2: boolean_n<3>(c); break; default: boolean_n<4>(c); } }
PBT_PROP("C09.boolean", 1, boolean);
#endif
// relations between the functions, and which == compile
constexpr bool eq_ok(auto *a, auto *b) { return requires { *a == *b; *a != *b; }; }
template <class U> constexpr bool may_eq = std::is_same_v<T, U> || (!BOOL && !std::is_same_v<U, bool> && (std::is_same_v<std::common_type_t<T, U>, T> || std::is_same_v<std::common_type_t<T, U>, U>));
template <class U> void table(Case &) {
  [&]<size_t... A>(std::index_sequence<A...>) { ([&] { constexpr size_t NA = A % 4 + 1, NB = A / 4 + 1; if constexpr (NA > 1 && NB > 1) {
    constexpr bool got = eq_ok((basic_vector<T, NA> *)nullptr, (basic_vector<U, NB> *)nullptr), got2 = eq_ok((basic_view<true, T, NA> *)nullptr, (basic_vector<U, NB> *)nullptr), want = NA == NB && may_eq<U>;
    CK(got == want && got2 == want, "== between " << tname<T>() << " length " << NA << " and " << tname<U>() << " length " << NB << (got ? " compiles" : " does not compile")); } }(), ...); }(std::make_index_sequence<16>{});
}
void tables(Case &c) { c.nontrivial(); switch (c.below(8)) { case 0: table<bool>(c); break; case 1: table<int>(c); break; case 2: table<unsigned>(c); break; case 3: table<ll>(c); break; case 4: table<ull>(c); break; case 5: table<sz>(c); break; case 6: table<float>(c); break; default: table<double>(c); } }
PBT_PROP(NM("equality_compiles"), 0.002, tables);
#else
template <class E, class F, size_t C, size_t R> void mat_n(Case &c) {
  std::array<E, C * R> a, b; gen_two(c, a, b); std::array<F, C * R> bf; for (size_t i = 0; i < a.size(); ++i) { bf[i] = (F)b[i]; if (c.chance(1, 2) && std::is_same_v<F, float>) a[i] = (E)(float)a[i]; }
  if (c.coin()) { for (size_t i = 0; i < a.size(); ++i) { if (a[i] != a[i]) a[i] = 1; bf[i] = (F)a[i]; } if (c.coin()) { size_t i = c.below(C * R); bf[i] = gen_near<F>(c, bf[i]); } }
  basic_matrix<E, C, R> x; basic_matrix<F, C, R> y; bool w = true, self = true;
  for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { x[i][j] = a[i * R + j]; y[i][j] = bf[i * R + j]; w = w && eq_model(a[i * R + j], bf[i * R + j]); self = self && a[i * R + j] == a[i * R + j]; }
  NOTE(c, C << "x" << R << " " << tname<E>() << " " << show(a) << " == " << tname<F>() << " " << show(bf));
  auto &cx = std::as_const(x); auto &cy = std::as_const(y); CK((cx == cy) == w && (x == y) == w, "x == y is " << !w); CK((cy == cx) == w, "y == x is " << !w); CK((cx != cy) == !w && (cy != cx) == !w, "!= is not the negation of =="); CK((x == x) == self && (x != x) == !self, "x == x is " << !self);
  for (size_t i = 0; i < C; ++i) { bool wc = true; for (size_t j = 0; j < R; ++j) wc = wc && eq_model(a[i * R + j], bf[i * R + j]); CK((x[i] == y[i]) == wc && (y[i] != x[i]) == !wc, "comparison of column " << i); }
  for (size_t j = 0; j < R; ++j) { bool wr = true; for (size_t i = 0; i < C; ++i) wr = wr && eq_model(a[i * R + j], bf[i * R + j]); CK((x.row(j) == y.row(j)) == wr, "comparison of row " << j); }
  c.nontrivial();
}
template <class E, class F> void mat(Case &c) { switch (c.below(9)) { case 0: mat_n<E, F, 2, 2>(c); break; case 1: mat_n<E, F, 2, 3>(c); break; case 2: mat_n<E, F, 2, 4>(c); break; case 3: mat_n<E, F, 3, 2>(c); break; case 4: mat_n<E, F, 3, 3>(c); break; case 5: mat_n<E, F, 3, 4>(c); break; case 6: mat_n<E, F, 4, 2>(c); break; case 7: mat_n<E, F, 4, 3>(c); break; default: mat_n<E, F, 4, 4>(c); } }
PBT_PROP("C09.matrix_equality.float", 0.5, (mat<float, float>));
PBT_PROP("C09.matrix_equality.double", 0.5, (mat<double, double>));
PBT_PROP("C09.matrix_equality.float_double", 0.5, (mat<float, double>));
PBT_PROP("C09.matrix_equality.double_float", 0.5, (mat<double, float>));
// storage_wrapper and view_wrapper
template <class A, class B, size_t N> void wrap(Case &c) {
  std::array<A, N> a, t; gen_two(c, a, t); std::array<B, N> b; for (size_t i = 0; i < N; ++i) { b[i] = conv_defined<B>(t[i]) ? (B)t[i] : B(1); if (c.coin() && conv_defined<B>(a[i])) b[i] = (B)a[i]; }
  storage_wrapper<true, A, N> x{}, x2{}; storage_wrapper<true, B, N> y{}; for (size_t i = 0; i < N; ++i) { x[i] = a[i]; x2[i] = a[i]; y[i] = b[i]; } view_wrapper<true, A, N> p(a.data()); view_wrapper<false, B, N> q(b.data());
  bool w = true; for (size_t i = 0; i < N; ++i) w = w && eq_model(a[i], b[i]); NOTE(c, "wrappers " << show(a) << " == " << show(b)); CK((x == y) == w && (p == q) == w && (x != y) == !w && (p != q) == !w, "== of wrappers is " << !w); bool s = true; for (auto z : a) s = s && z == z; CK((x == x2) == s && (p == p) == s, "== with equal content is not " << s); c.nontrivial();
}
void wrappers(Case &c) { switch (c.below(6)) { case 0: wrap<int, int, 3>(c); break; case 1: wrap<double, float, 2>(c); break; case 2: wrap<double, int, 4>(c); break; case 3: wrap<float, float, 1>(c); break; case 4: wrap<ull, unsigned, 3>(c); break; default: wrap<double, double, 4>(c); } }
PBT_PROP("C09.wrappers", 0.3, wrappers);
#endif
}
