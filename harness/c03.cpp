// C03: component-wise operators. PART selects the left element type.
#include "kinds.hpp"
#include "ops.hpp"
using namespace dsga;
namespace {
#ifndef PART
#define PART 0
#endif
template <int P> struct TypeAt; 
template <> struct TypeAt<0> { using t = int; }; template <> struct TypeAt<1> { using t = unsigned; };
template <> struct TypeAt<2> { using t = ll; }; template <> struct TypeAt<3> { using t = ull; };
template <> struct TypeAt<4> { using t = sz; }; template <> struct TypeAt<5> { using t = float; };
template <> struct TypeAt<6> { using t = double; };
using L = TypeAt<PART>::t;

// expected results, once per (types, sizes), the operator chosen at run time
template <class T1, class T2> bool defined_rt(int op, T1 a, T2 b) {
  switch (op) {
    case ADD: return defined<ADD>(a, b); case SUB: return defined<SUB>(a, b); case MUL: return defined<MUL>(a, b); case DIV: return defined<DIV>(a, b);
    default: if constexpr (std::is_integral_v<T1> && std::is_integral_v<T2>) {
      switch (op) { case MOD: return defined<MOD>(a, b); case SHL: case SHR: return defined<SHL>(a, b); default: return true; } }
  }
  return true;
}
template <class T1, class T2> auto ref_rt(int op, T1 a, T2 b) -> std::common_type_t<T1, T2> {
  switch (op) {
    case ADD: return op_ref<ADD>(a, b); case SUB: return op_ref<SUB>(a, b); case MUL: return op_ref<MUL>(a, b); case DIV: return op_ref<DIV>(a, b);
    default: if constexpr (std::is_integral_v<T1> && std::is_integral_v<T2>) {
      switch (op) { case MOD: return op_ref<MOD>(a, b); case AND: return op_ref<AND>(a, b); case OR: return op_ref<OR>(a, b); case XOR: return op_ref<XOR>(a, b); } }
  }
  return 0;
}
template <class T1, class T2> T1 ref_shift(int op, T1 a, T2 b) { if (op == SHL) return op_ref<SHL>(a, b); return op_ref<SHR>(a, b); }

template <class T1, class T2, class R, size_t N> __attribute__((noinline)) void verify(int op, const T1 *a, size_t na, const T2 *b, size_t nb, const std::array<R, N> &got, bool keptL, bool keptR) {
  std::vector<T1> va(a, a + na); std::vector<T2> vb(b, b + nb);
  for (size_t i = 0; i < N; ++i) {
    T1 x = a[na == 1 ? 0 : i]; T2 y = b[nb == 1 ? 0 : i]; R want;
    if constexpr (std::is_integral_v<T1> && std::is_integral_v<T2>) { if (op >= SHL) want = (R)ref_shift(op, x, y); else want = (R)ref_rt(op, x, y); } else want = (R)ref_rt(op, x, y);
    CK(same(got[i], want), "component " << i << " of " << tname<T1>() << " " << show(va) << " " << op_name[op] << " " << tname<T2>() << " " << show(vb) << " is " << show(got[i]) << ", expected " << show(want));
  }
  CK(keptL, "left operand or its surroundings modified by " << op_name[op]);
  CK(keptR, "right operand or its surroundings modified by " << op_name[op]);
}
template <class T1, class T2> bool all_defined(int op, const T1 *a, size_t na, const T2 *b, size_t nb) {
  for (size_t i = 0; i < std::max(na, nb); ++i) if (!defined_rt(op, a[na == 1 ? 0 : i], b[nb == 1 ? 0 : i])) return false;
  return true;
}
[[noreturn]] inline void bad_type(int op, const char *what, const char *t1, size_t n1, const char *t2, size_t n2) {
  CK(false, "operator " << op_name[op] << " " << what << " for " << t1 << n1 << ", " << t2 << n2); __builtin_unreachable();
}
template <int OP, size_t N1, size_t N2, class T1, class T2, class X, class Y> __attribute__((noinline)) auto apply_get(X &x, Y &y) {
  constexpr size_t N = N1 > N2 ? N1 : N2; using R = op_result<OP, T1, T2>;
  std::array<R, N> got{};
  auto use = [&](auto &&r0) {
    using RT = std::remove_cvref_t<decltype(r0)>; RT &r = r0;
    if constexpr (!std::is_same_v<RT, std::conditional_t<N == 1, R, basic_vector<R, N>>>) bad_type(OP, "has the wrong result type", tname<T1>(), N1, tname<T2>(), N2);
    else if constexpr (N == 1) got[0] = r; else for (size_t i = 0; i < N; ++i) got[i] = r[i];
  };
  if constexpr (OP == ADD) use(x + y); else if constexpr (OP == SUB) use(x - y); else if constexpr (OP == MUL) use(x * y); else if constexpr (OP == DIV) use(x / y); else if constexpr (OP == MOD) use(x % y);
  else if constexpr (OP == AND) use(x & y); else if constexpr (OP == OR) use(x | y); else if constexpr (OP == XOR) use(x ^ y); else if constexpr (OP == SHL) use(x << y); else use(x >> y);
  return got;
}

template <class T, size_t N> std::array<T, N> gen_mixed(Case &c) { return c.chance(1, 2) ? gen_arr_any<T, N>(c) : gen_arr_small<T, N>(c, 20); }

// kinds used for one combination of types, sizes, operator and form: two pairs spread by a hash
#ifndef NVAR
#define NVAR 2
#endif
template <class T> constexpr int tid = std::is_same_v<T, int> ? 0 : std::is_same_v<T, unsigned> ? 1 : std::is_same_v<T, ll> ? 2 : std::is_same_v<T, ull> ? 3 : std::is_same_v<T, sz> ? 4 : std::is_same_v<T, float> ? 5 : 6;
constexpr unsigned mixh(unsigned a) { a ^= a >> 16; a *= 0x7feb352dU; a ^= a >> 15; a *= 0x846ca68bU; a ^= a >> 16; return a; }

template <int OP, int KA, int KB, size_t N1, size_t N2, class T1, class T2> void run_one(Case &c, std::array<T1, N1> a, std::array<T2, N2> b) {
  if constexpr (KA < 0) {                                    // scalar left
    Opnd<KB, T2, N2> y(b); NOTE(c, "  kinds: scalar / " << kind_name(KB)); if (!all_defined(OP, a.data(), 1, y.m.data(), N2)) { c.label("discarded"); return; }
    const T1 x = a[0]; auto g = apply_get<OP, N1, N2, T1, T2>(x, y.get()); verify(OP, a.data(), 1, y.m.data(), N2, g, same(x, a[0]), y.intact());
  } else if constexpr (KB < 0) {
    Opnd<KA, T1, N1> x(a); NOTE(c, "  kinds: " << kind_name(KA) << " / scalar"); if (!all_defined(OP, x.m.data(), N1, b.data(), 1)) { c.label("discarded"); return; }
    const T2 y = b[0]; auto g = apply_get<OP, N1, N2, T1, T2>(x.get(), y); verify(OP, x.m.data(), N1, b.data(), 1, g, x.intact(), same(y, b[0]));
  } else {
    Opnd<KA, T1, N1> x(a); Opnd<KB, T2, N2> y(b); NOTE(c, "  kinds: " << kind_name(KA) << " / " << kind_name(KB));
    if (!all_defined(OP, x.m.data(), N1, y.m.data(), N2)) { c.label("discarded"); return; }
    auto g = apply_get<OP, N1, N2, T1, T2>(x.get(), y.get()); verify(OP, x.m.data(), N1, y.m.data(), N2, g, x.intact(), y.intact());
  }
}
template <int OP, class T1, class T2, size_t N, int FORM> void form_op(Case &c) {
  constexpr size_t N1 = (FORM == 2 || FORM == 3) ? 1 : N, N2 = (FORM == 1 || FORM == 4) ? 1 : N;
  static const char *fn[] = {"vector op vector", "vector op scalar", "scalar op vector", "one-component op vector", "vector op one-component"};
  c.label(fn[FORM]);
  auto a = gen_mixed<T1, N1>(c); auto b = gen_mixed<T2, N2>(c); make_defined<OP>(a, b);
  NOTE(c, tname<T1>() << " " << show(a) << " " << op_name[OP] << " " << tname<T2>() << " " << show(b));
  if constexpr (N1 > 1) c.nontrivial(all_distinct(a)); if constexpr (N2 > 1) c.nontrivial(all_distinct(b)); if constexpr (N == 1) c.nontrivial();
  auto var = [&]<int V>() {
    constexpr unsigned h = mixh((((tid<T1> * 7 + tid<T2>) * 10 + OP) * 5 + N) * 5 + FORM + 7919u * V);
    constexpr int KA = FORM == 2 ? -1 : (int)(h % 9), KB = FORM == 1 ? -1 : (int)(h / 9 % 9);
    run_one<OP, KA, KB>(c, a, b);
  };
  switch (c.below(NVAR)) { case 0: var.template operator()<0>(); break; case 1: if constexpr (NVAR > 1) var.template operator()<1>(); break; case 2: if constexpr (NVAR > 2) var.template operator()<2>(); break; }
}
template <int OP, class T1, class T2, size_t N> void one_op(Case &c) {
  switch (c.below(N == 1 ? 3 : 5)) {
    case 0: form_op<OP, T1, T2, N, 0>(c); break; case 1: form_op<OP, T1, T2, N, 1>(c); break; case 2: form_op<OP, T1, T2, N, 2>(c); break;
    case 3: if constexpr (N > 1) form_op<OP, T1, T2, N, 3>(c); break; case 4: if constexpr (N > 1) form_op<OP, T1, T2, N, 4>(c); break;
  }
}

template <class T1, class T2, size_t N> void binary_n(Case &c) {
  constexpr bool integral = std::is_integral_v<T1> && std::is_integral_v<T2>;
  int nops = integral ? (sizeof(T1) == sizeof(T2) ? 10 : 7) : 4;
  switch (c.below(nops)) {
    case 0: one_op<ADD, T1, T2, N>(c); break; case 1: one_op<SUB, T1, T2, N>(c); break;
    case 2: one_op<MUL, T1, T2, N>(c); break; case 3: one_op<DIV, T1, T2, N>(c); break;
    default: break;
    case 4: if constexpr (integral) one_op<MOD, T1, T2, N>(c); break;
    case 5: if constexpr (integral) one_op<SHL, T1, T2, N>(c); break;
    case 6: if constexpr (integral) one_op<SHR, T1, T2, N>(c); break;
    case 7: if constexpr (integral && sizeof(T1) == sizeof(T2)) one_op<AND, T1, T2, N>(c); break;
    case 8: if constexpr (integral && sizeof(T1) == sizeof(T2)) one_op<OR, T1, T2, N>(c); break;
    case 9: if constexpr (integral && sizeof(T1) == sizeof(T2)) one_op<XOR, T1, T2, N>(c); break;
  }
}
template <class T2> void binary(Case &c) {
  using CT = std::common_type_t<L, T2>;
  if constexpr (std::is_same_v<CT, L> || std::is_same_v<CT, T2>)      // long long with size_t is not a permitted combination
  switch (c.below(4)) {
    case 0: binary_n<L, T2, 2>(c); break; case 1: binary_n<L, T2, 3>(c); break;
    case 2: binary_n<L, T2, 4>(c); break; case 3: binary_n<L, T2, 1>(c); break;
  }
}
#define NM(T2) ((const char *)[] { static std::string s = std::string("C03.binary.") + tname<L>() + "." + tname<T2>(); return s.c_str(); }())
PBT_PROP(NM(int), 1, binary<int>); PBT_PROP(NM(unsigned), 1, binary<unsigned>); PBT_PROP(NM(ll), 1, binary<ll>);
PBT_PROP(NM(ull), 1, binary<ull>); PBT_PROP(NM(sz), 1, binary<sz>); PBT_PROP(NM(float), 1, binary<float>); PBT_PROP(NM(double), 1, binary<double>);

// unary + - ~
template <class T, size_t N, int K> void unary_k(Case &c, const std::array<T, N> &a, int which) {
  Opnd<K, T, N> o(a); NOTE(c, "  kind " << kind_name(K)); auto &x = o.get();
  auto chk = [&](auto r, int w) {
    using Want = std::conditional_t<N == 1, T, basic_vector<T, N>>;
    constexpr bool tok = std::is_same_v<decltype(r), Want>;
    CK(tok, "wrong result type");
    for (size_t i = 0; i < N; ++i) { T got; if constexpr (N == 1) got = (T)r; else got = (T)r[i]; T want = o.m[i];
      if (w == 1) want = (T)-want; else if constexpr (std::is_integral_v<T>) if (w == 2) want = (T)~want;
      CK(same(got, want), "component " << i << " of unary " << "+-~"[which] << show(o.m) << " is " << show(got) << ", expected " << show(want)); }
    CK(o.intact(), "operand modified");
  };
  if (which == 0) chk(+x, 0);
  else if (which == 1) chk(-x, 1);
  else if constexpr (std::is_integral_v<T>) chk(~x, 2);
}
template <class T, size_t N> void unary_n(Case &c) {
  auto a = gen_arr_any<T, N>(c); int which = (int)c.below(3);
  if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) if (which == 1) for (auto &x : a) if (x == std::numeric_limits<T>::min()) x = 1;
  NOTE(c, "unary " << "+-~"[which] << " on " << tname<T>() << " " << show(a)); c.nontrivial(has_nonzero(a));
  switch (c.below(NKINDS)) {
#define KC(K) case K: unary_k<T, N, K>(c, a, which); break;
    KC(0) KC(1) KC(2) KC(3) KC(4) KC(5) KC(6) KC(7) KC(8)
  }
}
void unary(Case &c) {
  switch (c.below(4)) { case 0: unary_n<L, 2>(c); break; case 1: unary_n<L, 3>(c); break; case 2: unary_n<L, 4>(c); break; case 3: unary_n<L, 1>(c); break; }
}
#define NU ((const char *)[] { static std::string s = std::string("C03.unary.") + tname<L>(); return s.c_str(); }())
PBT_PROP(NU, 1, unary);
}
