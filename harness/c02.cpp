// C02: swizzle writes. PART selects the element type.
#include "kinds.hpp"
#include "ops.hpp"
#include "names.hpp"
using namespace dsga;
namespace {
template <int P> struct TypeAt; template <> struct TypeAt<0> { using t = int; using u = int; }; template <> struct TypeAt<1> { using t = float; using u = ll; };
template <> struct TypeAt<2> { using t = double; using u = float; }; template <> struct TypeAt<3> { using t = ull; using u = unsigned; };
template <> struct TypeAt<4> { using t = unsigned; using u = int; }; template <> struct TypeAt<5> { using t = ll; using u = unsigned; }; template <> struct TypeAt<6> { using t = sz; using u = int; };
using T = TypeAt<PART>::t; using U = TypeAt<PART>::u;
constexpr bool INT = std::is_integral_v<T>;

// right-hand sides that do not come from the target's own data
struct Pool { T t[4]; U u[4]; T s; U us; int off; };
enum Form { VEC, P1, P2, P3, UVEC, OTHER, OWNVIEW, OP_P1, OP_VEC, OP_SC, OP_P2, RVIEW, SCALAR, OWNING, RSCALAR, RUVEC, NFORM };
const char *form_name[] = {"= vector", "= swizzle of itself (permuted)", "= swizzle of itself (repeats)", "= swizzle of itself", "= vector of another type", "= same swizzle of another object", "= view of its own data",
                           "op= swizzle of itself (permuted)", "op= vector", "op= scalar", "op= swizzle of itself (repeats)", "= through a temporary view", "= scalar", "= owning view", "= scalar through a temporary view", "= vector of another type through a temporary view"};
constexpr unsigned hs(const char *s, unsigned h) { while (*s) h = hmix(h * 31 + *s++); return h; }
constexpr int opof(unsigned h) { return (int)(h % (INT ? 10 : 4)); }
template <class V> struct IsView : std::false_type {}; template <size_t N> struct IsView<basic_view<true, T, N>> : std::true_type {};

template <size_t L> basic_vector<T, L> vec(const T *a) { basic_vector<T, L> v{}; for (size_t i = 0; i < L; ++i) v[i] = a[i]; return v; }
template <size_t L> basic_vector<U, L> uvec(const U *a) { basic_vector<U, L> v{}; for (size_t i = 0; i < L; ++i) v[i] = a[i]; return v; }
template <int OP, class S, class R> bool opa(S &s, const R &r) { auto &q = op_assign<OP>(s, r); return (const void *)&q == (const void *)&s; }

// a view swizzle is not assignable from its own type (re-targeting and copying would be confused), so go through a vector there
template <class S, class R> S &asg(S &s, R &r) { if constexpr (std::is_same_v<S, R> && !std::is_copy_assignable_v<S>) { basic_vector<T, S::size()> t(r); return s = t; } else return s = r; }
// one function per (container, target name): performs the assignment, returns whether it yielded the target itself
template <size_t L, unsigned H, class V, class S, class A, class B, class C> __attribute__((noinline)) bool act_(V &v, V &o, S &s, S &os, A &p1, B &p2, C &p3, int form, const Pool &p) {
  auto ret = [&](auto &&r) { return (const void *)&r == (const void *)&s; }; (void)ret; (void)o; (void)os;
  switch (form) {
    case VEC: return ret(s = vec<L>(p.t));
    case P1: return ret(asg(s, p1));
    case P2: return ret(asg(s, p2));
    case P3: return ret(asg(s, p3));
    case UVEC: return ret(s = uvec<L>(p.u));
    case OTHER: if constexpr (!IsView<V>::value) return ret(s = os); else return true;
    case OWNVIEW: { basic_view<true, T, L> w(&v[0] + p.off); return ret(s = w); }
    case OP_P1: return opa<opof(H)>(s, p1);
    case OP_VEC: return opa<opof(H >> 4)>(s, vec<L>(p.t));
    case OP_SC: return opa<opof(H >> 8)>(s, p.s);
    case OP_P2: return opa<opof(H >> 12)>(s, p2);
    case SCALAR: if constexpr (L == 1) return ret(s = p.us); else return true;
    case OWNING: { view_vector<T, L> w{}; for (size_t i = 0; i < L; ++i) w[i] = p.t[i]; return ret(s = w); }
  }
  return true;
}
template <class V> struct Ent { const char *name; int len; int idx[4]; const char *p[3]; unsigned h; bool (*act)(V &, V &, int, const Pool &); };
template <size_t N> struct Table;
#define ENT(NAME, L, A, B, C_, D, Q1, Q2, Q3) {#NAME, L, {A, B, C_, D}, {#Q1, #Q2, #Q3}, hs(#NAME, 77u * N + K), [](V &v, V &o, int form, const Pool &p) { \
  if (form == RVIEW) { if constexpr (IsView<V>::value) { V tmp(v.data()); auto &s_ = tmp.NAME; using S_ = std::remove_reference_t<decltype(s_)>; if constexpr (std::is_same_v<S_, std::remove_reference_t<decltype(v.Q1)>>) V(v.data()).NAME = basic_vector<T, L>(v.Q1); else V(v.data()).NAME = v.Q1; } return true; } \
  if (form == RSCALAR) { if constexpr (IsView<V>::value && L == 1) V(v.data()).NAME = p.us; return true; } if (form == RUVEC) { if constexpr (IsView<V>::value) V(v.data()).NAME = uvec<L>(p.u); return true; } \
  return act_<L, hs(#NAME, 77u * N + K)>(v, o, v.NAME, o.NAME, v.Q1, v.Q2, v.Q3, form, p); }},
#define TAB(N_) template <> struct Table<N_> { static constexpr size_t N = N_; template <class V, int K> static const Ent<V> *get(int &n) { static const Ent<V> t[] = { WPAIRS##N_(ENT) }; n = sizeof t / sizeof *t; return t; } };
TAB(1) TAB(2) TAB(3) TAB(4)

bool defd(int op, T a, T b) {
  switch (op) { case ADD: return defined<ADD>(a, b); case SUB: return defined<SUB>(a, b); case MUL: return defined<MUL>(a, b); case DIV: return defined<DIV>(a, b); }
  if constexpr (INT) switch (op) { case MOD: return defined<MOD>(a, b); case SHL: case SHR: return defined<SHL>(a, b); }
  return true;
}
T refop(int op, T a, T b) {
  switch (op) { case ADD: return op_ref<ADD>(a, b); case SUB: return op_ref<SUB>(a, b); case MUL: return op_ref<MUL>(a, b); case DIV: return op_ref<DIV>(a, b); }
  if constexpr (INT) switch (op) { case MOD: return op_ref<MOD>(a, b); case AND: return op_ref<AND>(a, b); case OR: return op_ref<OR>(a, b); case XOR: return op_ref<XOR>(a, b); case SHL: return op_ref<SHL>(a, b); case SHR: return op_ref<SHR>(a, b); }
  return a;
}
int letter(char ch) { return ch == 'w' ? 3 : ch - 'x'; }
template <size_t N, int K> void run(Case &c) {                // K 0 vector, 1 view, 2 owning view
  using V = std::conditional_t<K == 0, basic_vector<T, N>, basic_view<true, T, N>>;
  static const char *kn[] = {"vector", "mutable view", "owning view"};
  int n; auto *tab = Table<N>::template get<V, K == 2 ? 1 : K>(n); auto &e = tab[c.below(n)]; int L = e.len;
  int form = (int)c.below(NFORM);
  if (form == RVIEW && K == 0) form = P1; if (form == OTHER && K != 0) form = P2; if (form == SCALAR && L != 1) form = P3; if (form == RSCALAR && (L != 1 || K == 0)) form = P1; if (form == RUVEC && K == 0) form = UVEC;
  bool isop = form == OP_P1 || form == OP_VEC || form == OP_SC || form == OP_P2;
  Pool p; T m[4], om[4];
  auto gen = [&]() -> T { return isop && c.below(4) ? T(1 + c.below(20)) : gen_finite<T>(c); };
  for (auto &x : m) x = gen(); for (auto &x : om) x = gen(); for (auto &x : p.t) x = gen(); for (auto &x : p.u) { x = gen_finite<U>(c); if (!conv_defined<T>(x)) x = U(3); } p.s = gen(); p.us = p.u[0];
  p.off = (int)c.below(N - L + 1);
  int opc = form == OP_P1 ? opof(e.h) : form == OP_VEC ? opof(e.h >> 4) : form == OP_SC ? opof(e.h >> 8) : opof(e.h >> 12);
  NOTE(c, tname<T>() << " " << kn[K] << " " << show(std::vector<T>(m, m + N)) << ": ." << e.name << " " << form_name[form] << (isop ? std::string(" with ") + op_name[opc] : "") << " (sources ." << e.p[0] << " ." << e.p[1] << " ." << e.p[2] << ", offset " << p.off << ", values " << show(std::vector<T>(p.t, p.t + 4)) << ", scalar " << show(p.s) << ", " << show(std::vector<U>(p.u, p.u + 4)) << ")");
  // expected
  T rhs[4];
  for (int i = 0; i < L; ++i) switch (form) {
    case VEC: case OP_VEC: case OWNING: rhs[i] = p.t[i]; break;
    case P1: case OP_P1: case RVIEW: rhs[i] = m[letter(e.p[0][i])]; break;
    case P2: case OP_P2: rhs[i] = m[letter(e.p[1][i])]; break;
    case P3: rhs[i] = m[letter(e.p[2][i])]; break;
    case UVEC: case SCALAR: case RSCALAR: case RUVEC: rhs[i] = (T)p.u[i]; break;
    case OTHER: rhs[i] = om[e.idx[i]]; break;
    case OWNVIEW: rhs[i] = m[p.off + i]; break;
    case OP_SC: rhs[i] = p.s; break;
  }
  if (isop) for (int i = 0; i < L; ++i) if (!defd(opc, m[e.idx[i]], rhs[i])) { c.label("discarded"); return; }
  T want[4]; for (int i = 0; i < 4; ++i) want[i] = m[i];
  for (int i = 0; i < L; ++i) want[e.idx[i]] = isop ? refop(opc, m[e.idx[i]], rhs[i]) : rhs[i];
  bool ch = false; for (size_t i = 0; i < N; ++i) ch |= !same(want[i], m[i]); c.nontrivial(ch); c.label(form_name[form]);
  auto judge = [&](const V &v, const V &o, bool self) {
    for (size_t i = 0; i < N; ++i) CK(same(v[i], want[i]), "element " << i << " is " << show(v[i]) << ", expected " << show(want[i]));
    for (size_t i = 0; i < N; ++i) CK(same(o[i], om[i]), "the other object's element " << i << " changed");
    CK(self, "the assignment did not yield its target");
  };
  if constexpr (K == 0) {
    struct { T g0[4]; V v; T g1[4]; V o; T g2[4]; } b{};
    for (int i = 0; i < 4; ++i) b.g0[i] = b.g1[i] = b.g2[i] = T(i + 40);
    for (size_t i = 0; i < N; ++i) { b.v[i] = m[i]; b.o[i] = om[i]; }
    bool r = e.act(b.v, b.o, form, p); judge(b.v, b.o, r);
    for (int i = 0; i < 4; ++i) CK(b.g0[i] == T(i + 40) && b.g1[i] == T(i + 40) && b.g2[i] == T(i + 40), "memory next to the vector changed");
  } else if constexpr (K == 1) {
    T ext[16]; for (int i = 0; i < 16; ++i) ext[i] = T(i + 40); for (size_t i = 0; i < N; ++i) { ext[4 + i] = m[i]; ext[10 + i] = om[i]; }
    V v(ext + 4), o(ext + 10); bool r = e.act(v, o, form, p); judge(v, o, r);
    CK(v.data() == ext + 4 && o.data() == ext + 10, "the assignment re-targeted a view");
    for (int i = 0; i < 16; ++i) if (!(i >= 4 && i < 4 + (int)N) && !(i >= 10 && i < 10 + (int)N)) CK(ext[i] == T(i + 40), "memory next to the view's elements changed");
  } else {
    struct { T g0[4]; view_vector<T, N> v; T g1[4]; } b{}; view_vector<T, N> o{};
    for (int i = 0; i < 4; ++i) b.g0[i] = b.g1[i] = T(i + 40); for (size_t i = 0; i < N; ++i) { b.v[i] = m[i]; o[i] = om[i]; }
    bool r = e.act(b.v, o, form, p); judge(b.v, o, r);
    for (int i = 0; i < 4; ++i) CK(b.g0[i] == T(i + 40) && b.g1[i] == T(i + 40), "memory next to the owning view changed");
  }
}
template <size_t N> void by_kind(Case &c) { switch (c.below(3)) { case 0: run<N, 0>(c); break; case 1: run<N, 1>(c); break; case 2: run<N, 2>(c); break; } }
#define NM(X) ((const char *)[] { static std::string s = std::string("C02.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("write1"), 0.3, by_kind<1>); PBT_PROP(NM("write2"), 0.8, by_kind<2>); PBT_PROP(NM("write3"), 1.5, by_kind<3>); PBT_PROP(NM("write4"), 3, by_kind<4>);

#if PART == 0
// the same-named swizzle of a const vector or a temporary as the source
void same_const(Case &c) {
  auto a = gen_arr_small<int, 4>(c, 50), b = gen_arr_small<int, 4>(c, 50); for (int i = 0; i < 4; ++i) if (a[i] == b[i]) b[i] = a[i] + 100;
  int w = (int)c.below(4); NOTE(c, "x, yz, wyx or zw = the same swizzle of a const vector or temporary, case " << w << ": " << show(a) << " <- " << show(b)); c.nontrivial();
  auto v = mk(a); const auto cb = mk(b); bool named[4] = {};
  switch (w) { case 0: v.x = cb.x; named[0] = true; break; case 1: v.yz = cb.yz; named[1] = named[2] = true; break; case 2: v.wyx = mk(b).wyx; named[0] = named[1] = named[3] = true; break; case 3: v.zw = mk(b).zw; named[2] = named[3] = true; break; }
  bool whole = true; for (int i = 0; i < 4; ++i) whole &= v[i] == b[i];
  for (int i = 0; i < 4; ++i) CK(v[i] == (named[i] ? b[i] : a[i]), (whole ? "the whole source vector was copied by a same-swizzle assignment" : "a same-swizzle assignment stored something else") << ": " << show(arr_of(v)));
}
PBT_PROP("C02.same_swizzle_const_source", 0.1, same_const);

// what must not compile
#define NOTASS(NAME, L, A, B, C_, D, W) if constexpr (!W) { if constexpr (requires { v.NAME = basic_vector<int, L>{}; }) which = #NAME; if constexpr (requires { v.NAME += basic_vector<int, L>{}; }) which = #NAME; if constexpr (requires { v.NAME[0] = 1; }) which = #NAME; }
#define NOTANY(NAME, L, A, B, C_, D, W) if constexpr (requires { v.NAME = basic_vector<int, L>{}; }) which = #NAME; if constexpr (requires { v.NAME -= basic_vector<int, L>{}; }) which = #NAME; if constexpr (requires { v.NAME[0] = 1; }) which = #NAME;
#define ISASS(NAME, L, A, B, C_, D, W) if constexpr (!requires { v.NAME = basic_vector<int, L>{}; v.NAME += basic_vector<int, L>{}; v.NAME[0] = 1; }) which = #NAME;
template <class V> const char *rep2(V &v) { const char *which = nullptr; (void)v; NAMES2(NOTASS) return which; }
template <class V> const char *rep3(V &v) { const char *which = nullptr; (void)v; NAMES3(NOTASS) return which; }
template <class V> const char *rep4(V &v) { const char *which = nullptr; (void)v; NAMES4(NOTASS) return which; }
template <class V> const char *any2(V &v) { const char *which = nullptr; (void)v; NAMES2(NOTANY) return which; }
template <class V> const char *any3(V &v) { const char *which = nullptr; (void)v; NAMES3(NOTANY) return which; }
template <class V> const char *any4(V &v) { const char *which = nullptr; (void)v; NAMES4(NOTANY) return which; }
template <class V> const char *can4(V &v) { const char *which = nullptr; (void)v; WNAMES4(ISASS) return which; }
void negative(Case &c) {
  int x[4]{}; basic_vector<int, 2> a{}; basic_vector<int, 3> b{}; basic_vector<int, 4> d{}; basic_view<true, int, 2> p(x); basic_view<true, int, 3> q(x); basic_view<true, int, 4> r(x);
  const auto ca = a; const auto cb = b; const auto cd = d; basic_view<false, int, 2> cp(x); basic_view<false, int, 3> cq(x); basic_view<false, int, 4> cr(x); const char *w = nullptr;
  int k = (int)c.below(14); c.nontrivial(); NOTE(c, "assignability of every name, container " << k);
  const basic_view<true, int, 4> kr(x);
  switch (k) { case 0: w = rep2(a); break; case 1: w = rep3(b); break; case 2: w = rep4(d); break; case 3: w = rep2(p); break; case 4: w = rep3(q); break; case 5: w = rep4(r); break;
    case 6: w = any2(ca); break; case 7: w = any3(cb); break; case 8: w = any4(cd); break; case 9: w = any2(cp); break; case 10: w = any3(cq); break; case 11: w = any4(cr); break;
    case 12: if ((w = can4(d))) CK(false, "." << w << " of a vector cannot be assigned to"); break; case 13: if ((w = can4(r))) CK(false, "." << w << " of a view cannot be assigned to"); break; }
  CK(!w, "assigning to ." << w << " compiles (container " << k << ")");
}
PBT_PROP("C02.not_assignable", 0.003, negative);
template <class V> constexpr bool self_rep = requires(V &d) { d.xx = d.xx; } || requires(V &d, const V &e) { d.xyx = e.xyx; };
void rep_same(Case &c) {
  c.nontrivial(); NOTE(c, "v.xx = v.xx and v.xyx = (const v).xyx");
  using VW = basic_view<true, int, 4>; using RW = basic_view<false, int, 4>; using VV = basic_vector<int, 4>;
  CK(!self_rep<VW> && !self_rep<RW>, "a repeated-letter swizzle of a view is assignable from its own type");
  CK(!self_rep<VV>, "a repeated-letter swizzle of a vector is assignable from its own type");
}
PBT_PROP("C02.repeated_same_swizzle", 0.001, rep_same);
#endif
}
