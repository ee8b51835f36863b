// C19: one-component vectors, swizzles and views against scalars; conversions between element types. PART: element type.
#include "kinds.hpp"
namespace {
using namespace dsga;
using Types = std::tuple<bool, int, unsigned, ll, ull, sz, float, double>;
using T = std::tuple_element_t<PART, Types>;
template <class A, class B> inline constexpr bool implicit_rule = !std::is_same_v<A, bool> && !std::is_same_v<B, bool> && std::is_same_v<std::common_type_t<A, B>, B>;
template <class F> void with_type(Case &c, F &&f) { switch (c.below(8)) { case 0: f.template operator()<bool>(); break; case 1: f.template operator()<int>(); break; case 2: f.template operator()<unsigned>(); break; case 3: f.template operator()<ll>(); break; case 4: f.template operator()<ull>(); break; case 5: f.template operator()<sz>(); break; case 6: f.template operator()<float>(); break; default: f.template operator()<double>(); } }
template <class A> inline constexpr bool isfp = std::is_floating_point_v<A>;
// is the built-in operation on these scalars defined
template <class A, class B> bool def(int op, A a, B b) {
  using R = decltype(a + b); R x = (R)a, y = (R)b; [[maybe_unused]] R z;
  if constexpr (isfp<R>) return true; else { switch (op) { case 0: return std::is_unsigned_v<R> || !__builtin_add_overflow(x, y, &z); case 1: return std::is_unsigned_v<R> || !__builtin_sub_overflow(x, y, &z); case 2: return std::is_unsigned_v<R> || !__builtin_mul_overflow(x, y, &z); default: return y != 0 && !(std::is_signed_v<R> && x == std::numeric_limits<R>::min() && y == (R)-1); } }
}
template <class A, class B> bool shift_def(A, B b) { return b >= B(0) && (ull)b < sizeof(decltype(+A())) * 8; }
template <class R, class V> bool result_is(const V &v, R want, std::string &what) {
  constexpr bool ty = std::is_same_v<V, R> || std::is_same_v<V, basic_vector<R, 1>>; R r = v; what = show(r) + ", expected " + show(want) + (ty ? "" : " (type differs from the scalar expression)"); return ty && same(r, want);
}
#define AGREE(NAME, EXPR, WANT) { std::string w_; bool ok_ = result_is(EXPR, WANT, w_); CK(ok_, kn << " " << NAME << " with x = " << show(a) << " (" << tname<T>() << "), s = " << show(s) << " (" << tname<U>() << ") is " << w_); }
template <class R> R by_value(R r) { return r; }
template <class R> R by_cref(const R &r) { return r; }
template <class X, class Y> concept can_assign = requires(X x, Y y) { x = y; };
template <class X, class Y> concept can_add_assign = requires(X x, Y y) { x += y; };
template <class X, class Y> concept can_add = requires(X x, Y y) { x + y; };
// reading contexts
template <class X, class U, class TT> void reads(const X &x, TT a, U s, const char *kn) {
  constexpr bool both = can_add<const X &, U> && can_add<U, const X &>; CK(both, kn << ": no arithmetic between a one-component operand of " << tname<T>() << " and " << tname<U>());
  { T i = x; T d(x); auto st = static_cast<T>(x); CK(same(i, a) && same(d, a) && same(st, a), kn << ": converted to its scalar is " << show(i) << ", expected " << show(a)); CK(same(by_value<T>(x), a) && same(by_cref<T>(x), a), kn << ": as a function argument"); }
  if (conv_defined<U, T>(a)) { U i = (U)(T)x; U d = static_cast<U>(x); U e = x; CK(same(i, (U)a) && same(d, (U)a) && same(e, (U)a), kn << ": converted to " << tname<U>() << " is " << show(e)); CK(same(by_value<U>(x), (U)a), kn << ": argument of type " << tname<U>()); U g{}; g = x; CK(same(g, (U)a), kn << ": assigned to a scalar"); basic_vector<U, 3> bv(x); CK(same(bv[2], (U)a), kn << ": broadcast construction"); }
  if (def(0, a, s)) { AGREE("x + s", x + s, a + s) AGREE("s + x", s + x, s + a) } if (def(1, a, s)) AGREE("x - s", x - s, a - s) if (def(1, s, a)) AGREE("s - x", s - x, s - a)
  if (def(2, a, s)) { AGREE("x * s", x * s, a * s) AGREE("s * x", s * x, s * a) } if (def(3, a, s)) AGREE("x / s", x / s, a / s) if (def(3, s, a)) AGREE("s / x", s / x, s / a)
  if constexpr (!isfp<T> && !isfp<U>) {
    if (def(3, a, s)) AGREE("x % s", x % s, a % s) if (def(3, s, a)) AGREE("s % x", s % x, s % a) AGREE("x & s", x & s, a & s) AGREE("s | x", s | x, s | a) AGREE("x ^ s", x ^ s, a ^ s)
    if (shift_def(a, s)) { AGREE("x << s", x << s, a << s) AGREE("x >> s", x >> s, a >> s) } if (shift_def(s, a)) { AGREE("s << x", s << x, s << a) AGREE("s >> x", s >> x, s >> a) }
  }
#define CMP(O) CK(bool(x O s) == (a O s) && bool(s O x) == (s O a), kn << ": x " #O " s or s " #O " x differs from the scalars, x = " << show(a) << ", s = " << show(s) << " (" << tname<U>() << ")");
  CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
  CK(bool(x && s) == (a && s) && bool(s || x) == (s || a), kn << ": && or ||"); bool br = false; if (x) br = true; CK(br == bool(a), kn << ": as a condition"); CK(!x == !a, kn << ": !x");
  { U t = s; bool ok = false; if (def(0, s, a) && conv_defined<U>(decltype(s + a)(s + a))) { t += x; ok = true; } if (ok) CK(same(t, (U)(s + a)), kn << ": s += x is " << show(t)); t = s; if (def(2, s, a) && conv_defined<U>(decltype(s * a)(s * a))) { t *= x; CK(same(t, (U)(s * a)), kn << ": s *= x is " << show(t)); } }
  { T lo = std::min<T>(x, T(3)), hi = std::max<T>(T(3), x); CK(same(lo, std::min<T>(a, T(3))) && same(hi, std::max<T>(T(3), a)), kn << ": std::min / std::max"); }
  if constexpr (!std::is_same_v<T, bool>) { AGREE("+x", +x, +a) if (def(1, T(0), a) || isfp<T>) AGREE("-x", -x, (decltype(-a))(-a)) if constexpr (!isfp<TT>) AGREE("~x", ~x, (decltype(~a))(~a)) }
  if constexpr (!isfp<TT>) { int arr[8] = {5, 6, 7, 8, 9, 10, 11, 12}; if (a >= T(0) && (ull)a < 8) { CK(arr[x] == arr[(int)a], kn << ": as an array index"); int sw = 0; switch ((TT)x) { case TT(0): sw = 1; break; default: sw = 2; } CK(sw == (a == T(0) ? 1 : 2), kn << ": in a switch"); } }
}
template <class X, class Y, class U> void pairs(const X &x, const Y &y, T a, U s, const char *kn) {
  if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<U, bool>) {
    if (def(0, a, s)) AGREE("x + y", x + y, a + s) if (def(1, a, s)) AGREE("x - y", x - y, a - s) if (def(2, a, s)) AGREE("x * y", x * y, a * s) if (def(3, a, s)) AGREE("x / y", x / y, a / s)
    if constexpr (!isfp<T> && !isfp<U>) { if (def(3, a, s)) AGREE("x % y", x % y, a % s) if constexpr (sizeof(T) == sizeof(U)) { AGREE("x & y", x & y, a & s) AGREE("x ^ y", x ^ y, a ^ s) AGREE("x | y", x | y, a | s) } if (shift_def(a, s)) { AGREE("x << y", x << y, a << s) AGREE("x >> y", x >> y, a >> s) } }
    constexpr bool eq = std::is_same_v<T, U> || implicit_rule<T, U> || implicit_rule<U, T>; if constexpr (eq) CK(bool(x == y) == (a == s) && bool(x != y) == (a != s), kn << ": x == y, x = " << show(a) << " (" << tname<T>() << "), y = " << show(s) << " (" << tname<U>() << ")");
  }
}
// writing contexts: x is a mutable one-component target that holds a
template <class X, class U, class TT> void writes(X &x, TT a, U s, const char *kn) {
  constexpr bool want = implicit_rule<U, T>; constexpr bool as = can_assign<X &, U>, ca = can_add_assign<X &, U>;
  CK(as == want, kn << " of " << tname<T>() << ": assignment from a scalar " << tname<U>() << (as ? " compiles but must not" : " does not compile")); CK(ca == want, kn << " of " << tname<T>() << ": += with a scalar " << tname<U>() << (ca ? " compiles but must not" : " does not compile"));
  if constexpr (as && ca && want) {
    auto put = [&] { x = a; }; x = s; CK(same(T(x), (T)s), kn << " = " << show(s) << " stores " << show(T(x))); put(); CK(same(T(x), a), "assignment");
    T v;
#define CA(O, K) put(); if (def(K, a, (TT)s)) { v = (T)(a O (TT)s); x O##= s; CK(same(T(x), v), kn << " " #O "= " << show(s) << " (" << tname<U>() << ") on " << show(a) << " is " << show(T(x)) << ", expected " << show(v)); }
    CA(+, 0) CA(-, 1) CA(*, 2) CA(/, 3)
    if constexpr (!isfp<T> && !isfp<U>) { CA(%, 3) if constexpr (sizeof(T) == sizeof(U)) { put(); x &= s; CK(T(x) == (T)(a & (TT)s), kn << " &= "); put(); x |= s; CK(T(x) == (T)(a | (TT)s), kn << " |= "); put(); x ^= s; CK(T(x) == (T)(a ^ (TT)s), kn << " ^= "); } if (shift_def(a, s)) { put(); x <<= s; CK(T(x) == (T)(a << s), kn << " <<= "); put(); x >>= s; CK(T(x) == (T)(a >> s), kn << " >>= "); } }
    put(); if (def(0, a, T(1))) { T o = x++; CK(same(o, a) && same(T(x), T(a + T(1))), kn << "++"); put(); ++x; CK(same(T(x), T(a + T(1))), "++" << kn); } put(); if (def(1, a, T(1))) { T o = x--; CK(same(o, a) && same(T(x), T(a - T(1))), kn << "--"); put(); --x; CK(same(T(x), T(a - T(1))), "--" << kn); } put();
  }
}
const char *kname(int k) { static const char *n[] = {"one-component vector", "swizzle v.z", "view", "read-only view", "owning view", "swizzle of a view", "swizzle of a read-only view", "swizzle of a one-component vector", "swizzle of a one-component view"}; return n[k]; }
template <class U> U near(Case &c, T a) { U s = c.coin() ? gen_small<U>(c) : gen_any<U>(c); if (c.chance(1, 5) && conv_defined<U>(a)) s = (U)a; return s; }
template <class F> void each_kind(Case &c, T a, F &&f) {
  auto go = [&]<int K>() { Opnd<K, T, 1> o(std::array<T, 1>{a}); constexpr bool mut = K != 3 && K != 6; f.template operator()<mut>(o.get(), kname(K)); };
  switch (c.below(9)) { case 0: go.template operator()<0>(); break; case 1: go.template operator()<1>(); break; case 2: go.template operator()<2>(); break; case 3: go.template operator()<3>(); break; case 4: go.template operator()<4>(); break; case 5: go.template operator()<5>(); break; case 6: go.template operator()<6>(); break; case 7: go.template operator()<7>(); break; default: go.template operator()<8>(); }
}
T gen_t(Case &c) { return c.coin() ? gen_small<T>(c) : c.chance(1, 4) ? (T)(int)c.below(8) : gen_any<T>(c); }
void scalars(Case &c) {
  T a = gen_t(c); with_type(c, [&]<class U>() { U s = near<U>(c, a); NOTE(c, tname<T>() << " " << show(a) << " with scalar " << tname<U>() << " " << show(s)); each_kind(c, a, [&]<bool M>(auto &x, const char *kn) { reads(std::as_const(x), a, s, kn); if constexpr (M) writes(x, a, s, kn); CK(same(T(x), a), "the operand changed"); }); c.label(tname<U>()); }); c.nontrivial(a != T(0));
}
void two(Case &c) {
  T a = gen_t(c); with_type(c, [&]<class U>() { U s = near<U>(c, a); NOTE(c, tname<T>() << " " << show(a) << " with one-component " << tname<U>() << " " << show(s)); bool def_un = std::is_same_v<T, bool> || std::is_same_v<U, bool>; if (def_un) return;
    basic_vector<U, 1> y1(s); basic_vector<U, 3> y3(U(1), s, U(2)); U ya[2] = {s, U(7)}; basic_view<true, U, 1> yv(ya); int k = (int)c.below(3);
    each_kind(c, a, [&]<bool M>(auto &x, const char *kn) { auto &cx = std::as_const(x); if (k == 0) pairs(cx, y1, a, s, kn); else if (k == 1) pairs(cx, y3.y, a, s, kn); else pairs(cx, yv, a, s, kn);
      if constexpr (M) { constexpr bool want = implicit_rule<U, T>; using X = decltype(x); constexpr bool c1 = can_assign<X, basic_vector<U, 1> &>, c2 = can_assign<X, decltype((y3.y))>, c3 = can_assign<X, const basic_view<true, U, 1> &>; constexpr bool same_kind_view = std::is_same_v<U, T>;
        CK(c1 == want && c2 == want && (c3 == want || same_kind_view), kn << " of " << tname<T>() << ": assignment from a one-component operand of " << tname<U>() << " has the wrong availability");
        if constexpr (c1 && c2) { x = y1; CK(same(T(x), (T)s), kn << " = one-component vector stores " << show(T(x))); x = a; x = y3.y; CK(same(T(x), (T)s), kn << " = swizzle stores " << show(T(x))); x = a; } } }); c.label(tname<U>()); }); c.nontrivial(a != T(0));
}
// conversions of whole vectors
template <class U, size_t N> void conv_n(Case &c) {
  std::array<U, N> m; for (auto &x : m) { x = c.coin() ? gen_small<U>(c) : gen_any<U>(c); if (!conv_defined<T>(x)) x = gen_small<U>(c); if (!conv_defined<T>(x)) x = U(3); } NOTE(c, "conversion of " << tname<U>() << " " << show(m) << " to " << tname<T>());
  constexpr bool rule = implicit_rule<U, T> || std::is_same_v<T, U>, strict = implicit_rule<U, T>; using V = basic_vector<U, N>; using W = basic_vector<T, N>; using Sw = std::remove_reference_t<decltype(std::declval<Opnd<1, U, N> &>().get())>; using Vw = basic_view<true, U, N>; using Ow = view_vector<U, N>;
  constexpr bool i1 = std::is_convertible_v<const V &, W>, i2 = std::is_convertible_v<const Sw &, W>, i3 = std::is_convertible_v<const Vw &, W>, i4 = std::is_convertible_v<const Ow &, W>, x1 = std::is_constructible_v<W, const V &>, x2 = std::is_constructible_v<W, const Sw &>, x3 = std::is_constructible_v<W, const Vw &>, x4 = std::is_constructible_v<W, const Ow &>, a1 = std::is_assignable_v<W &, const V &>, a2 = std::is_assignable_v<W &, const Sw &>, a3 = std::is_assignable_v<W &, const Vw &>, a4 = std::is_assignable_v<W &, const Ow &>;
  using TV = basic_view<true, T, N>; constexpr bool v1 = std::is_assignable_v<TV &, const V &>, v2 = std::is_assignable_v<TV &, const Sw &>;
  CK(x1 && x2 && x3 && x4, "no explicit construction of " << tname<T>() << " from " << tname<U>());
  CK(a1 == rule, "assignment of a vector of " << tname<U>() << " to a vector of " << tname<T>() << (a1 ? " compiles but must not" : " does not compile")); CK(v1 == strict && v2 == strict, "assignment of " << tname<U>() << " to a view of " << tname<T>() << " has the wrong availability");
  if constexpr (N > 1) CK(i1 == rule, "implicit conversion of a vector of " << tname<U>() << " to a vector of " << tname<T>() << (i1 ? " compiles but must not" : " does not compile"));
  if constexpr (N > 1 && !std::is_same_v<T, bool>) CK(i2 == strict && i3 == strict && i4 == strict && a2 == strict && a3 == strict && a4 == strict, "implicit conversion of a swizzle or view of " << tname<U>() << " to a vector of " << tname<T>() << " has the wrong availability");
  auto is = [&](const auto &r, const auto &mm, const char *w) { for (size_t i = 0; i < N; ++i) CK(same(T(r[i]), (T)mm[i]), w << ": component " << i << " of " << show(mm) << " (" << tname<U>() << ") becomes " << show(T(r[i])) << ", expected " << show((T)mm[i])); };
  with_kind<U, N>(c, m, [&](auto &v, const auto &mm) { auto &cv = std::as_const(v); W w(cv); is(w, mm, "explicit construction"); view_vector<T, N> o(cv); is(o, mm, "construction of an owning view");
    if constexpr (strict && N > 1) { W i = cv; is(i, mm, "implicit conversion"); W g{}; g = cv; is(g, mm, "assignment"); T buf[N + 2] = {}; TV tv(buf + 1); if constexpr (requires { tv = cv; }) tv = cv; else tv = i; is(tv, mm, "assignment to a view"); CK(buf[0] == T(0) && buf[N + 1] == T(0), "assignment to a view wrote next to it"); basic_vector<T, 4> q{}; if constexpr (N == 2) { q.wy = cv; is(q.wy, mm, "assignment to a swizzle"); } if constexpr (N == 3) { q.zwx = cv; is(q.zwx, mm, "assignment to a swizzle"); } if constexpr (N == 4) { q.wzxy = cv; is(q.wzxy, mm, "assignment to a swizzle"); } } });
  c.nontrivial(!std::is_same_v<T, U>);
}
void conversions(Case &c) { with_type(c, [&]<class U>() { switch (c.below(4)) { case 0: conv_n<U, 1>(c); break; case 1: conv_n<U, 2>(c); break; case 2: conv_n<U, 3>(c); break; default: conv_n<U, 4>(c); } c.label(tname<U>()); }); }
#define NM(X) ((const char *)[] { static std::string s = std::string("C19.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("scalar"), 2, scalars); PBT_PROP(NM("pair"), 1.5, two); PBT_PROP(NM("conversion"), 1, conversions);
}
