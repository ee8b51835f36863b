// C18: component-wise matrix arithmetic; consistency of every way to reach the entries. PART 0,1: arithmetic (float, double); 2,3: histories.
#include "mats.hpp"
#include <ranges>
#include <numeric>
namespace {
using namespace dsga;
using E = std::conditional_t<PART % 2 == 0, float, double>;
template <class M> struct shape; template <class X, size_t C, size_t R> struct shape<basic_matrix<X, C, R>> { using type = X; static constexpr size_t c = C, r = R; };
template <size_t C, size_t R, class X> void entries(const auto &m, const std::array<X, C * R> &w, const char *what) {
  using S = shape<std::remove_cvref_t<decltype(m)>>; constexpr bool ok = std::is_same_v<typename S::type, X> && S::c == C && S::r == R; CK(ok, what << ": wrong result shape or element type");
  if constexpr (ok) for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) CK(same(m[i][j], w[i * R + j]), what << ": entry [" << i << "][" << j << "] is " << show(m[i][j]) << ", expected " << show(w[i * R + j]));
}
template <class X, size_t N> std::array<X, N> gen_entries(Case &c) { int mode = (int)c.below(3); std::array<X, N> a; for (auto &x : a) x = mode == 0 ? gen_small<X>(c, 20) : mode == 1 ? gen_finite<X>(c) : gen_any<X>(c); return a; }
#if PART < 2
template <int OP> auto apply2(const auto &x, const auto &y) { return op_apply<OP>(x, y); }
template <class U, size_t C, size_t R> void scalar_ops(Case &c) {
  using X = std::common_type_t<E, U>; auto a = gen_entries<E, C * R>(c); U s = gen_any<U>(c); int op = (int)c.below(8); auto m = mat_of<E, C, R>(a); const auto &cm = m; model<X, C, R> w;
  NOTE(c, C << "x" << R << " " << tname<E>() << " " << show(a) << (op & 1 ? " scalar first " : " scalar second ") << "+-*/"[op / 2] << " " << tname<U>() << " " << show(s));
  auto go = [&]<int OP>() {
    for (size_t i = 0; i < C * R; ++i) w[i] = (op & 1) ? op_ref<OP>(s, a[i]) : op_ref<OP>(a[i], s);
    if (op & 1) entries<C, R>(op_apply<OP>(s, cm), w, "scalar op matrix"); else entries<C, R>(op_apply<OP>(cm, s), w, "matrix op scalar");
  };
  switch (op / 2) { case 0: go.template operator()<ADD>(); break; case 1: go.template operator()<SUB>(); break; case 2: go.template operator()<MUL>(); break; default: go.template operator()<DIV>(); }
  entries<C, R>(m, a, "operand after the operation"); c.nontrivial(all_distinct(a) && s != U(0));
}
template <class U> void scalar_u(Case &c) { with_shape(c, [&]<size_t C, size_t R>() { scalar_ops<U, C, R>(c); }); }
void scalars(Case &c) { switch (c.below(7)) { case 0: scalar_u<int>(c); break; case 1: scalar_u<unsigned>(c); break; case 2: scalar_u<ll>(c); break; case 3: scalar_u<ull>(c); break; case 4: scalar_u<sz>(c); break; case 5: scalar_u<float>(c); break; default: scalar_u<double>(c); } }
template <class U, size_t C, size_t R> void matrix_ops(Case &c) {
  using X = std::common_type_t<E, U>; auto a = gen_entries<E, C * R>(c); auto b = gen_entries<U, C * R>(c); int op = (int)c.below(3); auto m = mat_of<E, C, R>(a); auto n = mat_of<U, C, R>(b); model<X, C, R> w, v; bool same_obj = std::is_same_v<E, U> && c.chance(1, 6);
  NOTE(c, C << "x" << R << " " << tname<E>() << " " << show(a) << " " << "+-/"[op] << " " << tname<U>() << " " << show(b) << (same_obj ? " (same object)" : ""));
  auto go = [&]<int OP>() {
    for (size_t i = 0; i < C * R; ++i) { w[i] = op_ref<OP>(a[i], b[i]); if (same_obj) w[i] = op_ref<OP>(a[i], a[i]); v[i] = op_ref<OP>(b[i], a[i]); }
    if (same_obj) entries<C, R>(op_apply<OP>(std::as_const(m), m), w, "matrix op itself"); else { entries<C, R>(op_apply<OP>(m, std::as_const(n)), w, "matrix op matrix"); entries<C, R>(op_apply<OP>(std::as_const(n), m), v, "matrix op matrix, swapped"); }
  };
  switch (op) { case 0: go.template operator()<ADD>(); break; case 1: go.template operator()<SUB>(); break; default: go.template operator()<DIV>(); }
  entries<C, R>(m, a, "left operand after the operation"); entries<C, R>(n, b, "right operand after the operation"); c.nontrivial(all_distinct(a) && all_distinct(b));
}
// == and != look at every entry, and follow the scalar == for zeros and NaN
template <class U, size_t C, size_t R> void equal_ops(Case &c) {
  using X = std::common_type_t<E, U>; auto a = gen_entries<E, C * R>(c); std::array<U, C * R> b; for (size_t i = 0; i < C * R; ++i) b[i] = static_cast<U>(a[i]); std::array<E, C * R> a2; for (size_t i = 0; i < C * R; ++i) a2[i] = static_cast<E>(b[i]);   // equal as far as both types allow
  size_t k = c.below(C * R); int how = (int)c.below(5); if (how == 1) b[k] = std::nextafter(b[k], U(1)); else if (how == 2) b[k] = -b[k]; else if (how == 3) b[k] = std::numeric_limits<U>::quiet_NaN(); else if (how == 4) { a2[k] = E(0); b[k] = U(-0.0); }
  bool w = true, self = true; for (size_t i = 0; i < C * R; ++i) { w = w && static_cast<X>(a2[i]) == static_cast<X>(b[i]); self = self && b[i] == b[i]; } auto m = mat_of<E, C, R>(a2); auto n = mat_of<U, C, R>(b);
  NOTE(c, C << "x" << R << " " << tname<E>() << " " << show(a2) << " == " << tname<U>() << " " << show(b)); CK((m == n) == w && (n == m) == w, "== is " << !w); CK((m != n) == !w && (n != m) == !w, "!= is " << w); CK((n == n) == self, "a matrix compared with itself gives " << !self); entries<C, R>(m, a2, "left operand"); entries<C, R>(n, b, "right operand"); c.nontrivial(all_distinct(a2) && how);
}
void equality(Case &c) { bool f = c.coin(); with_shape(c, [&]<size_t C, size_t R>() { f ? equal_ops<float, C, R>(c) : equal_ops<double, C, R>(c); }); }
void matrices(Case &c) { bool f = c.coin(); with_shape(c, [&]<size_t C, size_t R>() { f ? matrix_ops<float, C, R>(c) : matrix_ops<double, C, R>(c); }); }
template <size_t C, size_t R> void unary(Case &c) {
  auto a = gen_entries<E, C * R>(c); NOTE(c, C << "x" << R << " " << tname<E>() << " unary of " << show(a)); auto w = a; auto m = mat_of<E, C, R>(a); const auto &cm = m;
  auto sgn = [&](const auto &r, const char *what) { for (size_t i = 0; i < C * R; ++i) CK(std::signbit(r[i / R][i % R]) == std::signbit(w[i]) || w[i] != w[i], what << ": sign of entry " << i); };
  entries<C, R>(+cm, w, "unary +"); sgn(+cm, "unary +"); for (auto &x : w) x = -x; entries<C, R>(-cm, w, "unary -"); sgn(-cm, "unary -"); entries<C, R>(m, a, "operand"); entries<C, R>(-(-m), a, "- -"); 
  auto p = a, q = a; for (auto &x : p) ++x; for (auto &x : q) --x;
  { auto t = m; auto &r = ++t; CK(&r == &t, "++m does not return m"); entries<C, R>(t, p, "++m"); } { auto t = m; auto &r = --t; CK(&r == &t, "--m does not return m"); entries<C, R>(t, q, "--m"); }
  { auto t = m; auto o = t++; entries<C, R>(o, a, "result of m++"); entries<C, R>(t, p, "m after m++"); } { auto t = m; auto o = t--; entries<C, R>(o, a, "result of m--"); entries<C, R>(t, q, "m after m--"); }
  entries<C, R>(m, a, "copied-from matrix"); c.nontrivial(all_distinct(a));
}
void unaries(Case &c) { with_shape(c, [&]<size_t C, size_t R>() { unary<C, R>(c); }); }
#define NM(X) ((const char *)[] { static std::string s = std::string("C18.") + X + "." + tname<E>(); return s.c_str(); }())
PBT_PROP(NM("scalar_operators"), 1, scalars);
PBT_PROP(NM("matrix_operators"), 1, matrices);
PBT_PROP(NM("equality"), 0.6, equality);
PBT_PROP(NM("unary_operators"), 0.6, unaries);
#else
using F = std::conditional_t<std::is_same_v<E, float>, double, float>;
constexpr bool FROM_F = std::is_same_v<E, double>;            // E accepts F implicitly
// all read paths of one matrix against its model
template <class X, size_t C, size_t R> void check_all(basic_matrix<X, C, R> &m, const model<X, C, R> &w, const char *who, bool deep) {
  const auto &cm = m; auto at = [&](size_t i, size_t j) { return w[i * R + j]; };
#define EQ(V, I, J, WHAT) CK(same(X(V), at(I, J)), who << ": " << WHAT << " [" << I << "][" << J << "] is " << show(X(V)) << ", expected " << show(at(I, J)))
  for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { EQ(m[i][j], i, j, "m[i][j]"); EQ(cm[(int)i][(int)j], i, j, "const m[i][j]"); EQ(cm.row(j)[i], i, j, "row(j)[i]"); }
  if (!deep) return;
  constexpr bool ty = std::is_same_v<decltype(cm.row(0)), basic_vector<X, C>> && std::is_same_v<decltype(m[0]), basic_vector<X, R> &> && std::is_same_v<decltype(cm[0]), const basic_vector<X, R> &> && std::tuple_size_v<basic_matrix<X, C, R>> == C && std::is_same_v<std::tuple_element_t<0, basic_matrix<X, C, R>>, basic_vector<X, R>>;
  CK(ty, who << ": types of columns and rows"); CK(cm.length() == (int)C && cm.column_length() == (int)R && cm.size() == C && cm.column_size() == R && sizeof(m) == sizeof(X) * C * R, who << ": shape queries");
  CK(m.data() == &m[0] && cm.data() == &cm[0] && (void *)m.data() == (void *)&m, who << ": data() does not point to the first column");
  for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { EQ(m.data()[i][j], i, j, "data()[i][j]"); EQ(cm.data()[i][j], i, j, "const data()[i][j]"); EQ((*(m.begin() + (int)i))[j], i, j, "begin()[i]"); EQ((*(cm.cbegin() + (int)i))[j], i, j, "cbegin()[i]"); EQ((*(m.end() - (int)(C - i)))[j], i, j, "end()"); EQ((*(cm.rbegin() + (int)(C - 1 - i)))[j], i, j, "rbegin()"); EQ((*(m.rbegin() + (int)(C - 1 - i)))[j], i, j, "mutable rbegin()"); EQ((*(cm.crend() - (int)(i + 1)))[j], i, j, "crend()"); }
  CK(m.end() - m.begin() == (int)C && cm.end() - cm.begin() == (int)C && m.rend() - m.rbegin() == (int)C && cm.cend() - cm.cbegin() == (int)C && cm.rend() - cm.rbegin() == (int)C && m.crend() - m.crbegin() == (int)C, who << ": iterator distance");
  { size_t i = 0; for (auto &col : m) { for (size_t j = 0; j < R; ++j) EQ(col[j], i, j, "range-for"); ++i; } i = 0; for (const auto &col : cm) { size_t j = 0; for (auto x : col) { EQ(x, i, j, "const range-for"); ++j; } ++i; } }
  [&]<size_t... I>(std::index_sequence<I...>) { ([&] { for (size_t j = 0; j < R; ++j) { EQ(get<(int)I>(m)[j], I, j, "get<I>"); EQ(get<(int)I>(cm)[j], I, j, "const get<I>"); EQ(get<(int)I>(std::move(m))[j], I, j, "get<I>(&&)"); EQ(get<(int)I>(std::move(cm))[j], I, j, "get<I>(const &&)"); } CK(&get<(int)I>(m) == &m[I], who << ": get<I> is not column I"); }(), ...); }(std::make_index_sequence<C>{});
  auto sb = [&](auto &x, const char *what) { auto chk = [&](auto &...cols) { size_t i = 0; ([&] { for (size_t j = 0; j < R; ++j) EQ(cols[j], i, j, what); ++i; }(), ...); }; if constexpr (C == 2) { auto &[p, q] = x; chk(p, q); } else if constexpr (C == 3) { auto &[p, q, r] = x; chk(p, q, r); } else { auto &[p, q, r, s] = x; chk(p, q, r, s); } };
  sb(m, "structured binding"); sb(cm, "const structured binding");
  auto fl = to_array(cm); constexpr bool fty = std::is_same_v<decltype(fl), std::array<X, C * R>>; CK(fty, "type of to_array"); X raw[C * R]; std::memcpy(raw, (const void *)&m, sizeof raw); for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { EQ(fl[i * R + j], i, j, "to_array"); EQ(raw[i * R + j], i, j, "byte copy"); }
  auto back = to_matrix<C, R>(fl); auto back2 = to_matrix<C, R>(raw); basic_matrix<X, C, R> back3(&raw[0]); for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { EQ(back[i][j], i, j, "to_matrix of an array"); EQ(back2[i][j], i, j, "to_matrix of a C array"); EQ(back3[i][j], i, j, "matrix from a pointer"); }
  for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) { EQ(swizzle(cm[i], j), i, j, "swizzle of a column"); EQ(cm[i].yx[j < 2 ? 1 - j : 0], i, (j < 2 ? j : 1), "column.yx"); }
}
template <size_t C, size_t R> void history(Case &c) {
  struct Box { E g0[4]; basic_matrix<E, C, R> a; E g1[4]; basic_matrix<E, C, R> b; E g2[4]; basic_matrix<F, C, R> o; F g3[4]; } x;
  for (int i = 0; i < 4; ++i) { x.g0[i] = E(71 + i); x.g1[i] = E(81 + i); x.g2[i] = E(91 + i); x.g3[i] = F(61 + i); }
  model<E, C, R> ma = gen_entries<E, C * R>(c), mb = gen_entries<E, C * R>(c); model<F, C, R> mo; for (auto &v : mo) v = gen_small<F>(c, 30);
  x.a = mat_of<E, C, R>(ma); x.b = mat_of<E, C, R>(mb); x.o = mat_of<F, C, R>(mo); NOTE(c, C << "x" << R << " " << tname<E>() << " a = " << show(ma) << " b = " << show(mb) << " o = " << show(mo));
  int steps = 1 + (int)c.below(10);
  for (int st = 0; st < steps; ++st) {
    bool sw = c.coin(); auto &a = sw ? x.b : x.a; auto &b = sw ? x.a : x.b; auto &A = sw ? mb : ma; auto &B = sw ? ma : mb; auto &o = x.o; auto &O = mo;
    size_t i = c.below(C), j = c.below(R), k = c.below(C); E v = c.coin() ? gen_small<E>(c, 30) : gen_finite<E>(c); std::array<E, R> col; for (auto &z : col) z = gen_small<E>(c, 30); auto cv = mk(col); int op = (int)c.below(40); const char *n = "";
    auto setcol = [&](size_t ci, const auto &src) { for (size_t q = 0; q < R; ++q) A[ci * R + q] = E(src[q]); }; std::array<E, R> Ak; for (size_t q = 0; q < R; ++q) Ak[q] = A[k * R + q]; bool ok = true;
    switch (op) {
      case 0: n = "a[i][j] = v"; a[i][j] = v; A[i * R + j] = v; break;
      case 1: n = "a[i] = vector"; a[i] = cv; setcol(i, col); break;
      case 2: n = "a[i] = a[k]"; a[i] = a[k]; setcol(i, Ak); break;
      case 3: n = "a[i] = b[k]"; a[i] = b[k]; for (size_t q = 0; q < R; ++q) A[i * R + q] = B[k * R + q]; break;
      case 4: n = "a.data()[i][j] = v"; a.data()[i][j] = v; A[i * R + j] = v; break;
      case 5: n = "a.data()[i] = vector"; a.data()[i] = cv; setcol(i, col); break;
      case 6: n = "*(a.begin() + i) = vector"; *(a.begin() + (int)i) = cv; setcol(i, col); break;
      case 7: n = "(*(a.rbegin() + i))[j] = v"; (*(a.rbegin() + (int)i))[j] = v; A[(C - 1 - i) * R + j] = v; break;
      case 8: n = "get<I>(a) = vector"; [&]<size_t... I>(std::index_sequence<I...>) { ((I == i ? (void)(get<(int)I>(a) = cv) : void()), ...); }(std::make_index_sequence<C>{}); setcol(i, col); break;
      case 9: n = "structured binding[j] = v"; { auto put = [&](auto &...cols) { size_t q = 0; ((q++ == i ? (void)(cols[j] = v) : void()), ...); }; if constexpr (C == 2) { auto &[p, q] = a; put(p, q); } else if constexpr (C == 3) { auto &[p, q, r] = a; put(p, q, r); } else { auto &[p, q, r, s] = a; put(p, q, r, s); } } A[i * R + j] = v; break;
      case 10: n = "column.yx = vector"; a[i].yx = basic_vector<E, 2>(col[0], col[1]); A[i * R + 1] = col[0]; A[i * R] = col[1]; break;
      case 11: n = "column += vector"; a[i] += cv; for (size_t q = 0; q < R; ++q) A[i * R + q] += col[q]; break;
      case 12: n = "column *= scalar"; a[i] *= v; for (size_t q = 0; q < R; ++q) A[i * R + q] *= v; break;
      case 13: n = "a = b"; { auto &r = (a = b); CK(&r == &a, "a = b does not return a"); } A = B; break;
      case 14: n = "a = a"; { auto &self = a; a = self; } break;
      case 15: n = "a = std::move(b)"; a = std::move(b); A = B; break;
      case 16: n = "a = copy construction of b"; { basic_matrix<E, C, R> t(b); basic_matrix<E, C, R> u(std::move(t)); a = u; } A = B; break;
      case 17: n = "a = o or a = E(o)"; if constexpr (FROM_F) { auto &r = (a = o); CK(&r == &a, "a = o does not return a"); } else a = basic_matrix<E, C, R>(o); for (size_t q = 0; q < C * R; ++q) { if (!conv_defined<E>(O[q])) ok = false; A[q] = E(O[q]); } break;
      case 18: n = "o = a or o = F(a)"; for (auto z : A) if (!conv_defined<F>(z)) ok = false; if (!ok) { ok = true; break; } if constexpr (!FROM_F) o = a; else o = basic_matrix<F, C, R>(a); for (size_t q = 0; q < C * R; ++q) O[q] = F(A[q]); break;
      case 19: n = "a.swap(b)"; a.swap(b); std::swap(A, B); break; case 20: n = "swap(a, b)"; swap(a, b); std::swap(A, B); break; case 21: n = "std::swap(a, b)"; std::swap(a, b); std::swap(A, B); break; case 22: n = "std::ranges::swap(a, b)"; std::ranges::swap(a, b); std::swap(A, B); break; case 23: n = "a.swap(a)"; { auto &self = a; a.swap(self); } break;
      case 24: n = "swap(a[i], b[k])"; swap(a[i], b[k]); for (size_t q = 0; q < R; ++q) std::swap(A[i * R + q], B[k * R + q]); break;
      case 25: n = "++a"; ++a; for (auto &z : A) ++z; break; case 26: n = "a--"; a--; for (auto &z : A) --z; break;
      case 27: n = "a = a + b"; a = a + b; for (size_t q = 0; q < C * R; ++q) A[q] = A[q] + B[q]; break; case 28: n = "a = v - a"; a = v - a; for (auto &z : A) z = v - z; break; case 29: n = "a = -b"; a = -b; for (size_t q = 0; q < C * R; ++q) A[q] = -B[q]; break;
      case 30: n = "a[i] = b.row(j)"; if constexpr (C == R) { a[i] = b.row(j); for (size_t q = 0; q < R; ++q) A[i * R + q] = B[q * R + j]; } break;
      case 31: n = "a[i] = a.row(j)"; if constexpr (C == R) { a[i] = a.row(j); std::array<E, R> t; for (size_t q = 0; q < R; ++q) t[q] = A[q * R + j]; setcol(i, t); } break;
      case 32: n = "std::reverse"; std::reverse(a.begin(), a.end()); for (size_t p = 0; p < C / 2; ++p) for (size_t q = 0; q < R; ++q) std::swap(A[p * R + q], A[(C - 1 - p) * R + q]); break;
      case 33: n = "std::rotate"; std::rotate(a.begin(), a.begin() + (int)i, a.end()); { auto t = A; for (size_t p = 0; p < C; ++p) for (size_t q = 0; q < R; ++q) A[p * R + q] = t[((p + i) % C) * R + q]; } break;
      case 34: n = "range-for write"; for (auto &cl : a) cl[j] = v; for (size_t p = 0; p < C; ++p) A[p * R + j] = v; break;
      case 35: n = "std::ranges::fill"; std::ranges::fill(a, cv); for (size_t p = 0; p < C; ++p) setcol(p, col); break;
      case 36: n = "a = matrix of columns"; [&]<size_t... I>(std::index_sequence<I...>) { a = basic_matrix<E, C, R>((b[C - 1 - I])...); }(std::make_index_sequence<C>{}); for (size_t p = 0; p < C; ++p) for (size_t q = 0; q < R; ++q) A[p * R + q] = B[(C - 1 - p) * R + q]; break;
      case 37: n = "a = to_matrix(array)"; { std::array<E, C * R> t; for (auto &z : t) z = gen_small<E>(c, 50); a = to_matrix<C, R>(t); A = t; } break;
      case 38: n = "write through data pointer"; { E *p = a.data()->data(); p[j] = v; A[j] = v; } break;
      case 39: n = "a = pointer"; { E t[C * R]; for (auto &z : t) z = gen_small<E>(c, 50); a = basic_matrix<E, C, R>(t); for (size_t q = 0; q < C * R; ++q) A[q] = t[q]; } break;
    }
    NOTE(c, "  " << n << (sw ? " (a and b exchanged)" : "") << " i " << i << " j " << j << " k " << k << " v " << show(v)); if (!ok) return; c.label(n);
    bool deep = st == steps - 1 || c.chance(1, 4); check_all<E, C, R>(x.a, ma, "a", deep); check_all<E, C, R>(x.b, mb, "b", deep); check_all<F, C, R>(x.o, mo, "o", deep);
    for (int q = 0; q < 4; ++q) CK(x.g0[q] == E(71 + q) && x.g1[q] == E(81 + q) && x.g2[q] == E(91 + q) && x.g3[q] == F(61 + q), "memory next to a matrix changed");
  }
  c.nontrivial(steps > 1);
}
void histories(Case &c) { with_shape(c, [&]<size_t C, size_t R>() { history<C, R>(c); }); }
PBT_PROP(((const char *)[] { static std::string s = std::string("C18.history.") + tname<E>(); return s.c_str(); }()), 1, histories);
#endif
}
