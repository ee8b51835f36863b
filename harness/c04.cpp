// C04: histories of updates against an array model. PART selects the element type.
#include "kinds.hpp"
#include "ops.hpp"
using namespace dsga;
namespace {
template <int P> struct TypeAt; template <> struct TypeAt<0> { using t = int; using u = int; }; template <> struct TypeAt<1> { using t = float; using u = int; };
template <> struct TypeAt<2> { using t = ull; using u = unsigned; }; template <> struct TypeAt<3> { using t = double; using u = float; };
template <> struct TypeAt<4> { using t = unsigned; using u = int; }; template <> struct TypeAt<5> { using t = ll; using u = unsigned; }; template <> struct TypeAt<6> { using t = sz; using u = unsigned; };
using T = TypeAt<PART>::t; using U = TypeAt<PART>::u;
constexpr bool INT = std::is_integral_v<T>;

struct Model { T v[4][4], x[4][4], o[4][4], a[16]; int off[4], woff[4]; };
struct World {
  T g0[2]; basic_vector<T, 1> v1{}; basic_vector<T, 2> v2{}; basic_vector<T, 3> v3{}; basic_vector<T, 4> v4{}; T g1[2];
  basic_vector<T, 1> x1{}; basic_vector<T, 2> x2{}; basic_vector<T, 3> x3{}; basic_vector<T, 4> x4{};
  view_vector<T, 1> o1{}; view_vector<T, 2> o2{}; view_vector<T, 3> o3{}; view_vector<T, 4> o4{};
  T a[16]; basic_view<true, T, 1> w1; basic_view<true, T, 2> w2; basic_view<true, T, 3> w3; basic_view<true, T, 4> w4;
  basic_view<false, T, 4> r4;
};
constexpr int SW[4][4] = {{1}, {2, 0}, {3, 1, 0}, {1, 3, 0, 2}};           // .y .zx .wyx .ywxz of a four-component object
constexpr int SP[4][4] = {{3}, {0, 2}, {1, 0, 3}, {3, 2, 1, 0}};           // .w .xz .yxw .wzyx
constexpr int SR[4][4] = {{0}, {1, 1}, {2, 1, 2}, {3, 0, 0, 1}};           // .x .yy .zyz .wxxy
#define PICK(O, A, B, C, D) if constexpr (N == 1) return (O.A); else if constexpr (N == 2) return (O.B); else if constexpr (N == 3) return (O.C); else return (O.D)
#define PICKN(P) if constexpr (N == 1) return (w.P##1); else if constexpr (N == 2) return (w.P##2); else if constexpr (N == 3) return (w.P##3); else return (w.P##4)
enum TKind { VEC, VSW, VIEW, VIEWSW, OWN, OWNSW, VEC3SW, NTK };
const char *tk_name[] = {"vector", "vector swizzle", "view", "view swizzle", "owning view", "owning-view swizzle", "swizzle of a 3-vector"};
template <int K, size_t N> auto &tgt(World &w) {
  if constexpr (K == VEC) { PICKN(v); } else if constexpr (K == VSW) { PICK(w.v4, y, zx, wyx, ywxz); } else if constexpr (K == VIEW) { PICKN(w); }
  else if constexpr (K == VIEWSW) { PICK(w.w4, y, zx, wyx, ywxz); } else if constexpr (K == OWN) { PICKN(o); } else if constexpr (K == OWNSW) { PICK(w.o4, y, zx, wyx, ywxz); }
  else { PICK(w.v3, z, yz, zxy, xyz); }
}
template <int K, size_t N> T &mtgt(Model &m, size_t i) {
  if constexpr (K == VEC) return m.v[N - 1][i]; else if constexpr (K == VSW) return m.v[3][SW[N - 1][i]]; else if constexpr (K == VIEW) return m.a[m.woff[N - 1] + i];
  else if constexpr (K == VIEWSW) return m.a[m.woff[3] + SW[N - 1][i]]; else if constexpr (K == OWN) return m.o[N - 1][i]; else if constexpr (K == OWNSW) return m.o[3][SW[N - 1][i]];
  else { constexpr int S3[3][3] = {{2}, {1, 2}, {2, 0, 1}}; return m.v[2][S3[N - 1][i]]; }
}
enum SKind { S_VP, S_VR, S_V, S_W, S_WP, S_WR, S_O, S_OP, S_ELEM, S_ONE, S_ONEW, S_SCALAR, S_USCALAR, S_UVEC, S_RO, S_OTHER, S_EXPR, NSK };
const char *sk_name[] = {"swizzle of v4", "repeated-letter swizzle of v4", "vector", "view", "swizzle of w4", "repeated-letter swizzle of w4", "owning view", "swizzle of o4", "element of the target", "one-component swizzle v4.w",
                         "one-component swizzle w4.y", "scalar", "scalar of another type", "vector of another type", "read-only view swizzle", "another vector", "an expression of the target"};
template <int SK> constexpr bool scalar_src = SK == S_ELEM || SK == S_ONE || SK == S_ONEW || SK == S_SCALAR || SK == S_USCALAR;
struct Arg { T s; U u; U uv[4]; int i; };

enum OpId { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_AND, O_OR, O_XOR, O_SHL, O_SHR, O_ASSIGN, O_PREINC, O_PREDEC, O_POSTINC, O_POSTDEC, O_INDEX, O_SET, O_ITER, O_SWAP, NOP };
const char *opid_name[] = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "=", "prefix ++", "prefix --", "postfix ++", "postfix --", "[i] = ", "set", "writes through iterators", "swap"};
bool defd(int op, T a, T b) {
  switch (op) { case ADD: return defined<ADD>(a, b); case SUB: return defined<SUB>(a, b); case MUL: return defined<MUL>(a, b); case DIV: return defined<DIV>(a, b); }
  if constexpr (INT) switch (op) { case MOD: return defined<MOD>(a, b); case SHL: case SHR: return defined<SHL>(a, b); }
  return true;
}
T refop(int op, T a, T b) {
  switch (op) { case ADD: return op_ref<ADD>(a, b); case SUB: return op_ref<SUB>(a, b); case MUL: return op_ref<MUL>(a, b); case DIV: return op_ref<DIV>(a, b); }
  if constexpr (INT) switch (op) { case MOD: return op_ref<MOD>(a, b); case AND: return op_ref<AND>(a, b); case OR: return op_ref<OR>(a, b); case XOR: return op_ref<XOR>(a, b); case SHL: return op_ref<SHL>(a, b); case SHR: return op_ref<SHR>(a, b); }
  return b;
}
template <int SK, int K, size_t N> T msrc(Model &m, const Arg &g, size_t i) {
  switch (SK) {
    case S_VP: return m.v[3][SP[N - 1][i]]; case S_VR: return m.v[3][SR[N - 1][i]]; case S_V: return m.v[N - 1][i]; case S_W: return m.a[m.woff[N - 1] + i];
    case S_WP: return m.a[m.woff[3] + SP[N - 1][i]]; case S_WR: return m.a[m.woff[3] + SR[N - 1][i]]; case S_O: return m.o[N - 1][i]; case S_OP: return m.o[3][SP[N - 1][i]];
    case S_ELEM: return mtgt<K, N>(m, g.i % N); case S_ONE: return m.v[3][3]; case S_ONEW: return m.a[m.woff[3] + 1]; case S_SCALAR: return g.s; case S_USCALAR: return (T)g.u; case S_UVEC: return (T)g.uv[i];
    case S_RO: return m.a[8 + SP[N - 1][i]]; case S_OTHER: return m.x[N - 1][i]; case S_EXPR: return mtgt<K, N>(m, N - 1 - i);
  }
  return 0;
}
template <class R, class S, int OP> bool self(S &t, R &&r) { auto &q = op_assign<OP>(t, r); return (const void *)&q == (const void *)&t; }
// performs t OP= source (or t = source); true if the result is the target itself
template <int OP, int SK, int K, size_t N> bool perform(World &w, const Arg &g) {
  auto &t = tgt<K, N>(w);
  auto go = [&](auto &&src) -> bool {
    using S = std::remove_cvref_t<decltype(src)>; using D = std::remove_cvref_t<decltype(t)>;
    if constexpr (OP <= O_SHR) { auto &q = op_assign<OP>(t, src); return (const void *)&q == (const void *)&t; }
    else if constexpr ((K == VIEW && SK == S_O) || (std::is_same_v<S, D> && (K == VIEW || K == VIEWSW || K == OWNSW))) { basic_vector<T, N> tmp(src); auto &q = (t = tmp); return (const void *)&q == (const void *)&t; }
    else { auto &q = (t = src); return (const void *)&q == (const void *)&t; }
  };
  if constexpr (SK == S_VP) { auto f = [&]() -> auto & { PICK(w.v4, w, xz, yxw, wzyx); }; return go(f()); }
  else if constexpr (SK == S_VR) { auto f = [&]() -> auto & { PICK(w.v4, x, yy, zyz, wxxy); }; return go(f()); }
  else if constexpr (SK == S_V) { auto f = [&]() -> auto & { PICKN(v); }; return go(f()); }
  else if constexpr (SK == S_W) { auto f = [&]() -> auto & { PICKN(w); }; return go(f()); }
  else if constexpr (SK == S_WP) { auto f = [&]() -> auto & { PICK(w.w4, w, xz, yxw, wzyx); }; return go(f()); }
  else if constexpr (SK == S_WR) { auto f = [&]() -> auto & { PICK(w.w4, x, yy, zyz, wxxy); }; return go(f()); }
  else if constexpr (SK == S_O) { auto f = [&]() -> auto & { PICKN(o); }; return go(f()); }
  else if constexpr (SK == S_OP) { auto f = [&]() -> auto & { PICK(w.o4, w, xz, yxw, wzyx); }; return go(f()); }
  else if constexpr (SK == S_RO) { auto f = [&]() -> const auto & { PICK(w.r4, w, xz, yxw, wzyx); }; return go(f()); }
  else if constexpr (SK == S_OTHER) { auto f = [&]() -> auto & { PICKN(x); }; return go(f()); }
  else if constexpr (SK == S_ELEM) return go(t[g.i % N]);
  else if constexpr (SK == S_ONE) return go(w.v4.w);
  else if constexpr (SK == S_ONEW) return go(w.w4.y);
  else if constexpr (SK == S_SCALAR) return go(g.s);
  else if constexpr (SK == S_USCALAR) return go(g.u);
  else if constexpr (SK == S_UVEC) { basic_vector<U, N> uv{}; for (size_t i = 0; i < N; ++i) uv[i] = g.uv[i]; return go(uv); }
  else { basic_vector<T, N> r{}; for (size_t i = 0; i < N; ++i) r[i] = t[N - 1 - i]; return go(r); }
}
struct Step { int op, tk, n, sk; int (*run)(World &, Model &, const Arg &, Case &); };
template <size_t N, class A, class B> void set_n(A &t, const B &b) {
  if constexpr (N == 1) t.set(b[0]); else if constexpr (N == 2) t.set(b[0], b[1]); else if constexpr (N == 3) t.set(b[0], b[1], b[2]); else t.set(b[0], b[1], b[2], b[3]);
}
// 0: not defined for the present values, 1 done
template <int OP, int K, size_t N, int SK> int step(World &w, Model &m, const Arg &g, Case &c) {
  auto &t = tgt<K, N>(w);
  if constexpr (OP <= O_ASSIGN) {
    T r[4], l[4];
    for (size_t i = 0; i < N; ++i) { r[i] = msrc<SK, K, N>(m, g, i); l[i] = mtgt<K, N>(m, i); if (OP <= O_SHR && !defd(OP, l[i], r[i])) return 0; if (OP == O_SHL || OP == O_SHR) if (r[i] < 0) return 0; }
    CK((perform<OP, SK, K, N>(w, g)), opid_name[OP] << " does not return its target");
    for (size_t i = 0; i < N; ++i) mtgt<K, N>(m, i) = OP == O_ASSIGN ? r[i] : refop(OP, l[i], r[i]);
  } else if constexpr (OP <= O_POSTDEC) {
    constexpr int d = (OP == O_PREINC || OP == O_POSTINC) ? ADD : SUB; T l[4];
    for (size_t i = 0; i < N; ++i) { l[i] = mtgt<K, N>(m, i); if (!defd(d, l[i], T(1))) return 0; }
    if constexpr (OP == O_PREINC) { auto &q = ++t; CK((const void *)&q == (const void *)&t, "prefix ++ does not return its operand"); }
    else if constexpr (OP == O_PREDEC) { auto &q = --t; CK((const void *)&q == (const void *)&t, "prefix -- does not return its operand"); }
    else { auto old = [&] { if constexpr (OP == O_POSTINC) return t++; else return t--; }();
      for (size_t i = 0; i < N; ++i) CK(same(T(old[i]), l[i]), "postfix returned " << show(T(old[i])) << " for element " << i << ", the old value is " << show(l[i])); }
    for (size_t i = 0; i < N; ++i) mtgt<K, N>(m, i) = refop(d, l[i], T(1));
  } else if constexpr (OP == O_INDEX) {
    size_t i = g.i % N; switch (g.i & 3) { case 0: t[i] = g.s; break; case 1: t[(int)i] = g.s; break; case 2: t[(unsigned)i] = g.s; break; case 3: t[(unsigned char)i] = g.s; break; }
    mtgt<K, N>(m, i) = g.s;
  } else if constexpr (OP == O_SET) {
    bool own = g.i & 1; T b[4]; for (size_t i = 0; i < N; ++i) b[i] = own ? mtgt<K, N>(m, N - 1 - i) : (T)g.uv[i];
    if (own) { struct R { decltype(t) &t; T &operator[](size_t i) const { return t[N - 1 - i]; } } r{t}; set_n<N>(t, r); } else set_n<N>(t, g.uv);
    for (size_t i = 0; i < N; ++i) mtgt<K, N>(m, i) = b[i];
  } else if constexpr (OP == O_ITER) {
    size_t i = 0; T b[4]; for (size_t j = 0; j < N; ++j) b[j] = (T)g.uv[j];
    if (g.i & 1) { for (auto &e : t) e = b[i++]; for (size_t j = 0; j < N; ++j) mtgt<K, N>(m, j) = b[j]; }
    else { for (auto it = t.rbegin(); it != t.rend(); ++it) *it = b[i++]; for (size_t j = 0; j < N; ++j) mtgt<K, N>(m, N - 1 - j) = b[j]; }
    CK(i == N, "iteration visited " << i << " elements");
  } else {
    if constexpr (K == VEC) { auto f = [&]() -> auto & { PICKN(x); }; auto &x = f(); switch (g.i % 3) { case 0: t.swap(x); break; case 1: { using std::swap; swap(t, x); break; } case 2: std::swap(x, t); break; } for (size_t i = 0; i < N; ++i) std::swap(m.v[N - 1][i], m.x[N - 1][i]); }
    else if constexpr (K == VIEW) {                          // N external elements away from the window
      T buf[4]; for (size_t i = 0; i < N; ++i) buf[i] = (T)g.uv[i]; basic_view<true, T, N> o(buf); if (g.i & 1) t.swap(o); else { using std::swap; swap(t, o); }
      for (size_t i = 0; i < N; ++i) { CK(same(buf[i], mtgt<K, N>(m, i)), "swapped-out element " << i); mtgt<K, N>(m, i) = (T)g.uv[i]; }
    } else { for (size_t i = 0; i + 1 < N; i += 2) { std::iter_swap(t.begin() + i, t.begin() + i + 1); std::swap(mtgt<K, N>(m, i), mtgt<K, N>(m, i + 1)); } }
  }
  (void)c; return 1;
}
constexpr bool op_ok(int op) { return INT || !(op >= O_MOD && op <= O_SHR); }
template <int OP, int K, size_t N, int V> constexpr int srcof() {
  unsigned h = hmix((((unsigned)OP * 7 + K) * 5 + N) * 3 + V + 1000u * PART);
  constexpr int al[NTK][5] = {{S_VP, S_VR, S_V, S_ELEM, S_ONE}, {S_VP, S_VR, S_V, S_ELEM, S_ONE}, {S_W, S_WP, S_WR, S_ELEM, S_ONEW}, {S_W, S_WP, S_WR, S_ELEM, S_ONEW}, {S_O, S_OP, S_O, S_ELEM, S_EXPR}, {S_O, S_OP, S_O, S_ELEM, S_EXPR}, {S_V, S_ELEM, S_EXPR, S_VP, S_ELEM}};
  int s = V == 0 ? al[K][h % 5] : V == 1 ? al[K][(h / 5) % 5] : (int)(h % NSK);
  if (OP == O_ASSIGN && N > 1 && (s == S_ELEM || s == S_ONE || s == S_ONEW || s == S_SCALAR || s == S_USCALAR)) s = V == 0 ? S_VP : V == 1 ? S_W : S_UVEC;   // a scalar is not assignable to a longer vector
  if ((OP == O_SHL || OP == O_SHR) && (V == 2)) s = S_USCALAR;
  if ((OP == O_AND || OP == O_OR || OP == O_XOR) && sizeof(U) != sizeof(T) && (s == S_USCALAR || s == S_UVEC)) s = S_OTHER;
  if (K == OWN && s == S_O && OP == O_ASSIGN) s = S_OP;
  return s;
}
std::vector<Step> build() {
  std::vector<Step> s;
  auto add = [&]<int OP, int K, size_t N, int V>() { if constexpr (op_ok(OP) && !(K == VEC3SW && N == 4)) { if constexpr (OP <= O_ASSIGN || V == 0) { constexpr int SK = OP <= O_ASSIGN ? srcof<OP, K, N, V>() : 0; s.push_back({OP, K, (int)N, SK, step<OP, K, N, SK>}); } } };
  auto v = [&]<int OP, int K, size_t N>() { [&]<size_t... V>(std::index_sequence<V...>) { (add.template operator()<OP, K, N, V>(), ...); }(std::make_index_sequence<3>{}); };
  auto n = [&]<int OP, int K>() { v.template operator()<OP, K, 1>(); v.template operator()<OP, K, 2>(); v.template operator()<OP, K, 3>(); v.template operator()<OP, K, 4>(); };
  auto k = [&]<int OP>() { [&]<size_t... K>(std::index_sequence<K...>) { (n.template operator()<OP, (int)K>(), ...); }(std::make_index_sequence<NTK>{}); };
  [&]<size_t... O>(std::index_sequence<O...>) { (k.template operator()<(int)O>(), ...); }(std::make_index_sequence<NOP>{});
  return s;
}
// everything in the world equals the model
__attribute__((noinline)) void agree(World &w, Model &m) {
  auto ck = [&](const auto &v, const T *x, const char *what, size_t n) { for (size_t i = 0; i < n; ++i) CK(same(T(v[i]), x[i]), what << n << "[" << i << "] is " << show(T(v[i])) << ", the model has " << show(x[i])); };
  ck(w.v1, m.v[0], "v", 1); ck(w.v2, m.v[1], "v", 2); ck(w.v3, m.v[2], "v", 3); ck(w.v4, m.v[3], "v", 4);
  ck(w.x1, m.x[0], "x", 1); ck(w.x2, m.x[1], "x", 2); ck(w.x3, m.x[2], "x", 3); ck(w.x4, m.x[3], "x", 4);
  ck(w.o1, m.o[0], "o", 1); ck(w.o2, m.o[1], "o", 2); ck(w.o3, m.o[2], "o", 3); ck(w.o4, m.o[3], "o", 4);
  for (int i = 0; i < 16; ++i) CK(same(w.a[i], m.a[i]), "external element " << i << " is " << show(w.a[i]) << ", the model has " << show(m.a[i]));
  CK(w.w1.data() == w.a + m.woff[0] && w.w2.data() == w.a + m.woff[1] && w.w3.data() == w.a + m.woff[2] && w.w4.data() == w.a + m.woff[3] && w.r4.data() == w.a + 8, "a view was re-targeted");
  CK(w.g0[0] == T(7) && w.g0[1] == T(8) && w.g1[0] == T(9) && w.g1[1] == T(10), "memory next to the vectors changed");
}
void history(Case &c) {
  static const std::vector<Step> steps = build();
  World w; Model m; w.g0[0] = 7; w.g0[1] = 8; w.g1[0] = 9; w.g1[1] = 10;
  auto small = [&]() -> T { return c.chance(1, 6) ? gen_finite<T>(c) : gen_small<T>(c, 12); };
  auto ini = [&](auto &v, T *x) { for (size_t i = 0; i < v.size(); ++i) v[i] = x[i] = small(); };
  ini(w.v1, m.v[0]); ini(w.v2, m.v[1]); ini(w.v3, m.v[2]); ini(w.v4, m.v[3]); ini(w.x1, m.x[0]); ini(w.x2, m.x[1]); ini(w.x3, m.x[2]); ini(w.x4, m.x[3]); ini(w.o1, m.o[0]); ini(w.o2, m.o[1]); ini(w.o3, m.o[2]); ini(w.o4, m.o[3]);
  for (int i = 0; i < 16; ++i) w.a[i] = m.a[i] = small();
  for (int i = 0; i < 4; ++i) m.woff[i] = 1 + (int)c.below(8);
  w.w1.reset(w.a + m.woff[0]); w.w2.reset(w.a + m.woff[1]); w.w3.reset(w.a + m.woff[2]); w.w4.reset(w.a + m.woff[3]); w.r4.reset(w.a + 8);
  NOTE(c, tname<T>() << ": v2 " << show(std::vector<T>(m.v[1], m.v[1] + 2)) << " v3 " << show(std::vector<T>(m.v[2], m.v[2] + 3)) << " v4 " << show(std::vector<T>(m.v[3], m.v[3] + 4)) << " o4 " << show(std::vector<T>(m.o[3], m.o[3] + 4)) << " a " << show(std::vector<T>(m.a, m.a + 16)) << " views w1-w4 at " << m.woff[0] << " " << m.woff[1] << " " << m.woff[2] << " " << m.woff[3]);
  int n = 1 + (int)c.below(24), done = 0;
  for (int s = 0; s < n; ++s) {
    const Step &st = steps[c.below(steps.size())];
    Arg g; g.s = small(); g.u = c.chance(1, 5) ? gen_finite<U>(c) : gen_small<U>(c, 12); for (auto &x : g.uv) { x = c.chance(1, 5) ? gen_finite<U>(c) : gen_small<U>(c, 12); if (!conv_defined<T>(x)) x = 2; } if (!conv_defined<T>(g.u)) g.u = 2; g.i = (int)c.below(12);
    int r = st.run(w, m, g, c);
    if (r) { ++done; NOTE(c, "  " << s << ": " << opid_name[st.op] << " on " << tk_name[st.tk] << " of " << st.n << (st.op <= O_ASSIGN ? std::string(", source: ") + sk_name[st.sk] : "") << " (scalar " << show(g.s) << ", other type " << show(g.u) << " " << show(std::vector<U>(g.uv, g.uv + 4)) << ", i " << g.i << ")"); c.label(opid_name[st.op]); }
    agree(w, m);
  }
  c.nontrivial(done >= 2);
}
#define NM(X) ((const char *)[] { static std::string s = std::string("C04.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("history"), 1, history);
}
