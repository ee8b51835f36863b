// C01: swizzle reads. PART selects the element type.
#include "kinds.hpp"
#include "names.hpp"
using namespace dsga;
namespace {
template <int P> struct TypeAt; template <> struct TypeAt<0> { using t = int; }; template <> struct TypeAt<1> { using t = unsigned; };
template <> struct TypeAt<2> { using t = ll; }; template <> struct TypeAt<3> { using t = ull; }; template <> struct TypeAt<4> { using t = sz; };
template <> struct TypeAt<5> { using t = float; }; template <> struct TypeAt<6> { using t = double; }; template <> struct TypeAt<7> { using t = bool; };
using T = TypeAt<PART>::t;
struct Out { T e[4]; int n; bool ok; const char *what; };

// what a swizzle object says about itself, in several ways
template <size_t L, int H, class S> __attribute__((noinline)) void look(const S &s, Out &o) {
  o.n = s.length(); o.ok = true;
  static_assert(std::is_same_v<std::remove_cvref_t<decltype(s[0])>, T>, "a swizzle has the element type of its vector");
  for (size_t i = 0; i < L; ++i) o.e[i] = s[i];
  auto bad = [&](const char *w) { o.ok = false; o.what = w; };
  if constexpr (H % 4 == 0) { basic_vector<T, L> cp(s); for (size_t i = 0; i < L; ++i) if (!same(cp[i], o.e[i])) bad("a stand-alone copy differs"); }
  else if constexpr (H % 4 == 1) { size_t i = 0; for (const T &x : s) { if (i >= L || !same(x, o.e[i])) bad("range-for differs"); ++i; } if (i != L) bad("range-for has another number of elements"); }
  else if constexpr (H % 4 == 2) { auto a = to_array(s); if (a.size() != L) bad("to_array has another length"); else for (size_t i = 0; i < L; ++i) if (!same(T(a[i]), o.e[i])) bad("to_array differs"); }
  else if constexpr (!std::is_same_v<T, bool>) { basic_vector<T, L> cp(s); bool nan = false; for (size_t i = 0; i < L; ++i) nan |= cp[i] != cp[i]; if ((s == cp) == nan || (cp == s) == nan) bad("== with a stand-alone copy"); auto d = s + basic_vector<T, L>(T(0)); if constexpr (L == 1) { if (!numeq((T)d, o.e[0])) bad("swizzle + 0 differs"); } else for (size_t i = 0; i < L; ++i) if (!numeq(T(d[i]), o.e[i])) bad("swizzle + 0 differs"); }
  else { auto q = compNot(s); if constexpr (L == 1) { if (bool(q) == o.e[0]) bad("compNot differs"); } else for (size_t i = 0; i < L; ++i) if (q[i] == o.e[i]) bad("compNot differs"); }
  if constexpr (H % 5 == 0) { static_assert(S::size() == L); T first = o.e[0]; if constexpr (L == 1) { T v = s; if (!same(v, first)) bad("conversion to the scalar differs"); } }
}
template <class V> struct Ent { const char *name; int len; int idx[4]; void (*rd)(const V &, Out &); void (*rdm)(V &, Out &); };
constexpr int hs(const char *s, int n) { unsigned h = 7u * n; while (*s) h = hmix(h * 31 + *s++); return (int)(h % 20); }
template <size_t N> struct Table;
#define ENT(NAME, L, A, B, C_, D, W) {#NAME, L, {A, B, C_, D}, [](const V &v, Out &o) { look<L, hs(#NAME, N + KINDNO)>(v.NAME, o); }, [](V &v, Out &o) { look<L, hs(#NAME, N + KINDNO)>(v.NAME, o); }},
#define TAB(N_) template <> struct Table<N_> { static constexpr size_t N = N_; template <class V, int KINDNO> static const Ent<V> *get(int &n) { static const Ent<V> t[] = { NAMES##N_(ENT) }; n = sizeof t / sizeof *t; return t; } };
TAB(1) TAB(2) TAB(3) TAB(4)

template <class V> void compare(const Ent<V> &e, const T *data, const Out &o, const char *when) {
  CK(o.n == e.len, "." << e.name << " has length " << o.n);
  for (int i = 0; i < e.len; ++i) CK(same(o.e[i], data[e.idx[i]]), when << " component " << i << " of ." << e.name << " is " << show(o.e[i]) << ", expected " << show(data[e.idx[i]]));
  CK(o.ok, when << " ." << e.name << ": " << o.what);
}
// distinct values so that any mixed-up component is visible
template <size_t N> void gen_vals(Case &c, T (&a)[N]) {
  for (size_t i = 0; i < N; ++i) { a[i] = gen_any<T>(c); if constexpr (!std::is_same_v<T, bool>) for (int tries = 0; tries < 20; ++tries) { bool dup = false; for (size_t j = 0; j < i; ++j) dup |= same(a[i], a[j]); if (!dup) break; a[i] = T(3 + i * 5 + tries); } }
}
template <size_t N, int K> void run(Case &c) {
  using V = std::conditional_t<K == 0, basic_vector<T, N>, std::conditional_t<K == 1, basic_view<true, T, N>, std::conditional_t<K == 2, basic_view<false, T, N>, view_vector<T, N>>>>;
  static const char *kn[] = {"vector", "mutable view", "read-only view", "owning view"};
  T data[8], ext[8]; gen_vals(c, data); for (int i = 0; i < 8; ++i) ext[i] = data[i];
  int n; auto *tab = Table<N>::template get<V, K>(n); auto &e = tab[c.below(n)]; c.label(kn[K]); c.label(e.len == 1 ? "1 letter" : e.len == 2 ? "2 letters" : e.len == 3 ? "3 letters" : "4 letters");
  NOTE(c, "." << e.name << " of a " << kn[K] << " of " << N << " " << tname<T>() << ": " << show(std::vector<T>(data + 2, data + 2 + N)));
  int d = 0; for (int i = 0; i < e.len; ++i) d |= e.idx[i] != i; c.nontrivial(d || e.len != (int)N);
  Out o;
  auto go = [&](V &v, auto &&poke) {
    const V &cv = v;
    e.rdm(v, o); compare(e, data + 2, o, "mutable object:"); e.rd(cv, o); compare(e, data + 2, o, "const object:");
    for (int step = 0; step < 3; ++step) { int i = (int)c.below(N); T nv = gen_any<T>(c); data[2 + i] = nv; poke(v, i, nv); NOTE(c, "  element " << i << " set to " << show(nv)); e.rd(cv, o); compare(e, data + 2, o, "after a change:"); e.rdm(v, o); compare(e, data + 2, o, "after a change:"); }
    for (size_t i = 0; i < N; ++i) CK(same(v[i], data[2 + i]), "reading a swizzle changed element " << i);
  };
  if constexpr (K == 0) { V v{}; for (size_t i = 0; i < N; ++i) v[i] = data[2 + i]; go(v, [](V &w, int i, T x) { w[i] = x; }); }
  else if constexpr (K == 3) { V v{}; for (size_t i = 0; i < N; ++i) v[i] = data[2 + i]; go(v, [](V &w, int i, T x) { w[i] = x; }); }
  else { V v(ext + 2); go(v, [&](V &, int i, T x) { ext[2 + i] = x; }); for (int i = 0; i < 8; ++i) CK(same(ext[i], data[i]), "external element " << i << " changed"); }
}
template <size_t N> void by_kind(Case &c) { switch (c.below(4)) { case 0: run<N, 0>(c); break; case 1: run<N, 1>(c); break; case 2: run<N, 2>(c); break; case 3: run<N, 3>(c); break; } }
#define NM(X) ((const char *)[] { static std::string s = std::string("C01.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("read1"), 0.3, by_kind<1>); PBT_PROP(NM("read2"), 1, by_kind<2>); PBT_PROP(NM("read3"), 1.5, by_kind<3>); PBT_PROP(NM("read4"), 3, by_kind<4>);

// a copy does not follow later changes; pairs of swizzles of one vector read the same data
template <size_t N> void detach(Case &c) {
  std::array<T, N> a; T d[N]; gen_vals(c, d); for (size_t i = 0; i < N; ++i) a[i] = d[i];
  NOTE(c, "copies of swizzles of " << tname<T>() << " " << show(a)); c.nontrivial();
  with_kind(c, a, [&](auto &&s, const auto &m) {
    basic_vector<T, N> cp(s), cp2 = basic_vector<T, N>(s);
    using S = std::remove_cvref_t<decltype(s)>;
    if constexpr (requires(S &q) { { q[0] } -> std::same_as<T &>; q[0] = T{}; }) {
      for (size_t i = 0; i < N; ++i) s[i] = T(i % 2);
      for (size_t i = 0; i < N; ++i) CK(same(cp[i], m[i]) && same(cp2[i], m[i]), "the copy changed with its source");
      for (size_t i = 0; i < N; ++i) cp[i] = T((i + 1) % 2);
      for (size_t i = 0; i < N; ++i) CK(same(T(s[i]), T(i % 2)), "the source changed with the copy");
    } else { for (size_t i = 0; i < N; ++i) cp[i] = T(i % 2); for (size_t i = 0; i < N; ++i) CK(same(T(s[i]), m[i]) && same(cp2[i], m[i]), "the source changed with the copy"); }
  });
}
void detach_p(Case &c) { switch (c.below(4)) { case 0: detach<1>(c); break; case 1: detach<2>(c); break; case 2: detach<3>(c); break; case 3: detach<4>(c); break; } }
PBT_PROP(NM("detach"), 0.5, detach_p);

// the run-time swizzle function
template <class R, size_t L> void rt_check(const R &r, const T *w) {
  if constexpr (L == 1) { static_assert(std::is_same_v<R, T> || std::is_same_v<R, basic_vector<T, 1>>); CK(same((T)r, w[0]), "swizzle gives " << show((T)r) << ", expected " << show(w[0])); }
  else { static_assert(std::is_same_v<R, basic_vector<T, L>>); for (size_t i = 0; i < L; ++i) CK(same(r[i], w[i]), "swizzle component " << i << " is " << show(r[i]) << ", expected " << show(w[i])); }
}
template <size_t N> void rt(Case &c) {
  std::array<T, N> a; T d[N]; gen_vals(c, d); for (size_t i = 0; i < N; ++i) a[i] = d[i];
  int L = 1 + (int)c.below(4), ty = (int)c.below(4), ix[4]; for (int i = 0; i < L; ++i) ix[i] = (int)c.below(N);
  NOTE(c, "swizzle(" << tname<T>() << " " << show(a) << ", " << show(std::vector<int>(ix, ix + L)) << "), index types " << ty); c.nontrivial(N > 1);
  with_kind(c, a, [&](auto &&s, const auto &m) {
    T w[4]; for (int i = 0; i < L; ++i) w[i] = m[ix[i]];
    auto call = [&](auto A, auto B, auto C_, auto D) {
      switch (L) {
        case 1: { auto r = swizzle(s, A); rt_check<decltype(r), 1>(r, w); break; }
        case 2: { auto r = swizzle(s, A, B); rt_check<decltype(r), 2>(r, w); break; }
        case 3: { auto r = swizzle(s, A, B, C_); rt_check<decltype(r), 3>(r, w); break; }
        case 4: { auto r = swizzle(s, A, B, C_, D); rt_check<decltype(r), 4>(r, w); break; }
      }
    };
    switch (ty) { case 0: call(ix[0], ix[1], ix[2], ix[3]); break; case 1: call((sz)ix[0], (sz)ix[1], (sz)ix[2], (sz)ix[3]); break; case 2: call((unsigned)ix[0], ix[1], (ll)ix[2], (unsigned char)ix[3]); break; case 3: call((ll)ix[0], (sz)ix[1], (unsigned short)ix[2], (ull)ix[3]); break; }
  });
}
void rt_p(Case &c) { switch (c.below(4)) { case 0: rt<1>(c); break; case 1: rt<2>(c); break; case 2: rt<3>(c); break; case 3: rt<4>(c); break; } }
PBT_PROP(NM("runtime"), 1, rt_p);

// letters beyond the base do not exist; a const vector's swizzles do, and are read-only
#define NOTHERE(NAME) if constexpr (requires { v.NAME; }) which = #NAME;
template <class V> const char *bad1(V &v) { const char *which = nullptr; (void)v; BADNAMES1(NOTHERE) return which; }
template <class V> const char *bad2(V &v) { const char *which = nullptr; (void)v; BADNAMES2(NOTHERE) return which; }
template <class V> const char *bad3(V &v) { const char *which = nullptr; (void)v; BADNAMES3(NOTHERE) return which; }
void absent(Case &c) {
  const char *w = nullptr; int k = (int)c.below(6); T x[4]{}; c.nontrivial();
  auto view1 = basic_view<true, T, 1>(x); auto view2 = basic_view<true, T, 2>(x); auto view3 = basic_view<true, T, 3>(x);
  basic_vector<T, 1> v1{}; basic_vector<T, 2> v2{}; basic_vector<T, 3> v3{};
  switch (k) { case 0: w = bad1(v1); break; case 1: w = bad2(v2); break; case 2: w = bad3(v3); break; case 3: w = bad1(view1); break; case 4: w = bad2(view2); break; case 5: w = bad3(view3); break; }
  NOTE(c, "names beyond the base, container " << k);
  CK(!w, "a swizzle ." << w << " exists on a vector that is too short for it");
}
#if PART == 0
PBT_PROP(NM("absent"), 0.001, absent);
#endif
}
