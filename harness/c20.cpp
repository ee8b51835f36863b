// C20: plain storage and independent copies. PART 0-7: vectors of each element type; 8: matrices of float, 9: of double.
#include "mats.hpp"
#include <bit>
#include <deque>
#include <list>
#include <map>
#include <new>
#include <optional>
#include <variant>
namespace {
using namespace dsga;
using T = std::tuple_element_t<PART < 8 ? PART : PART - 2, std::tuple<bool, int, unsigned, ll, ull, sz, float, double>>;
template <size_t K> std::array<T, K> gen_vals(Case &c) { std::array<T, K> a; for (size_t i = 0; i < K; ++i) a[i] = c.chance(1, 3) ? gen_any<T>(c) : (T)(int)(1 + i + c.below(60)); return a; }
// equal to a, but with other signs of zeros
template <size_t K> std::array<T, K> zero_twin(Case &c, std::array<T, K> a) { if constexpr (std::is_floating_point_v<T>) { for (auto &x : a) if (x == T(0)) x = c.coin() ? T(-0.0) : T(0); } return a; }
#if PART < 8
template <size_t N> struct Obj { using type = basic_vector<T, N>; static constexpr size_t K = N; static type make(const std::array<T, N> &a) { return mk(a); } static T at(const type &o, size_t i) { return o[i]; } static void put(type &o, size_t i, T x) { o[i] = x; } static auto ptr(auto &o) { return o.data(); } };
#define DIM size_t N
#define ARG N
#else
template <size_t C, size_t R> struct Obj { using type = basic_matrix<T, C, R>; static constexpr size_t K = C * R; static type make(const std::array<T, C * R> &a) { return mat_of<T, C, R>(a); } static T at(const type &o, size_t i) { return o[i / R][i % R]; } static void put(type &o, size_t i, T x) { o[i / R][i % R] = x; } static auto ptr(auto &o) { return o.data()->data(); } };
#define DIM size_t C, size_t R
#define ARG C, R
#endif
// byte-level view of one object
template <DIM> void layout(Case &c) {
  using O = Obj<ARG>; using V = typename O::type; constexpr size_t K = O::K; auto a = gen_vals<K>(c), b = gen_vals<K>(c); NOTE(c, "storage of " << show(a) << " and " << show(b));
  constexpr bool size_ok = sizeof(V) == K * sizeof(T) && alignof(V) == alignof(T), triv = std::is_trivially_copyable_v<V> && std::is_standard_layout_v<V> && std::is_trivially_destructible_v<V>; CK(size_ok, "an object has " << sizeof(V) << " bytes, expected " << K * sizeof(T)); CK(triv, "objects are not trivially copyable, standard layout objects");
  struct { T before[2]; V v; T after[2]; } s{{T(1), T(0)}, O::make(a), {T(0), T(1)}}; const V &cv = s.v;
  CK((const void *)O::ptr(s.v) == (const void *)&s.v && O::ptr(cv) == O::ptr(s.v), "data() is not the address of the object");
  std::array<T, K> got; std::memcpy(got.data(), &s.v, sizeof got); CK(same_arr(got, a), "bytes of the object are " << show(got) << ", expected " << show(a));
  for (size_t i = 0; i < K; ++i) CK(same(O::ptr(cv)[i], a[i]) && same(O::at(cv, i), a[i]), "element " << i << " through data() is " << show(O::ptr(cv)[i]));
  auto bc = std::bit_cast<std::array<T, K>>(s.v); CK(same_arr(bc, a), "bit_cast to an array"); V fb = std::bit_cast<V>(b); for (size_t i = 0; i < K; ++i) CK(same(O::at(fb, i), b[i]), "bit_cast from an array: element " << i);
  size_t how = c.below(4); // write, byte by byte or through the pointer
  if (how == 0) std::memcpy(&s.v, b.data(), sizeof b); else if (how == 1) for (size_t i = 0; i < K; ++i) O::ptr(s.v)[i] = b[i]; else if (how == 2) for (size_t i = 0; i < K; ++i) O::put(s.v, i, b[i]); else { V t = O::make(b); std::memcpy(&s.v, &t, sizeof t); }
  std::memcpy(got.data(), s.v.data(), sizeof got); CK(same_arr(got, b), "after writing " << show(b) << " the bytes are " << show(got));
  for (size_t i = 0; i < K; ++i) CK(same(O::at(cv, i), b[i]), "after writing bytes, element " << i << " is " << show(O::at(cv, i))); CK(s.v == O::make(b) || std::any_of(b.begin(), b.end(), [](T x) { return x != x; }), "a byte copy is not equal to the original");
  CK(s.before[0] == T(1) && s.before[1] == T(0) && s.after[0] == T(0) && s.after[1] == T(1), "memory next to the object changed");
#if PART < 8
  { auto sw = [&](const auto &w, size_t n, const size_t *pos, const char *nm) { for (size_t i = 0; i < n; ++i) CK(same(T(w[i]), b[pos[i]]), "swizzle " << nm << " read after a byte copy: element " << i << " is " << show(T(w[i]))); }; if constexpr (N >= 2) { size_t p[] = {1, 0}; sw(s.v.yx, 2, p, "yx"); } if constexpr (N >= 3) { size_t p[] = {2, 0, 1}; sw(s.v.zxy, 3, p, "zxy"); } if constexpr (N >= 4) { size_t p[] = {3, 2, 1, 0}; sw(s.v.wzyx, 4, p, "wzyx"); } }
  if constexpr (N >= 2 && !std::is_same_v<T, bool>) { auto e = b; s.v.yx = basic_vector<T, 2>(a[0], a[1]); e[1] = a[0]; e[0] = a[1]; std::memcpy(got.data(), &s.v, sizeof got); CK(same_arr(got, e), "bytes after assigning to a swizzle"); }
  { V arr[3] = {O::make(a), O::make(b), O::make(a)}; const T *p = arr[0].data(); for (size_t i = 0; i < 3 * N; ++i) CK(same(p[i], i / N == 1 ? b[i % N] : a[i % N]), "array of vectors is not contiguous"); std::vector<V> vv(3, O::make(b)); CK((const void *)(vv[0].data() + N) == (const void *)&vv[1], "vector of vectors is not contiguous"); basic_view<true, T, N> w(vv[1].data()); w[N - 1] = a[0]; CK(same(T(vv[1][N - 1]), a[0]) && same(T(vv[0][N - 1]), b[N - 1]), "a view on data() changed another element"); }
#else
  for (size_t i = 0; i < C; ++i) CK((const void *)&s.v[i] == (const void *)(O::ptr(s.v) + i * R) && &s.v.data()[i] == &s.v[i] && (const void *)s.v[i].data() == (const void *)&s.v[i], "column " << i << " is not at its place");
  { basic_view<true, T, R> w(O::ptr(s.v) + R); w[0] = a[0]; CK(same(T(s.v[1][0]), a[0]), "a view on a column"); V arr[2] = {O::make(a), O::make(b)}; CK(O::ptr(arr[0]) + C * R == O::ptr(arr[1]), "array of matrices is not contiguous"); }
#endif
  c.nontrivial(all_distinct(a) || K == 1 || std::is_same_v<T, bool>);
}
template <DIM> void zero(Case &c) {
  using O = Obj<ARG>; using V = typename O::type; alignas(V) unsigned char buf[sizeof(V) * 3]; for (auto &x : buf) x = (unsigned char)(1 + c.below(255)); int how = (int)c.below(8); NOTE(c, "value-initialisation, way " << how << ", over memory holding " << (int)buf[0] << " " << (int)buf[sizeof(V)]);
  auto chk = [&](const V &v) { for (size_t i = 0; i < O::K; ++i) CK(same(O::at(v, i), T(0)), "element " << i << " of a value-initialised object is " << show(O::at(v, i))); const unsigned char *p = (const unsigned char *)&v; for (size_t i = 0; i < sizeof(V); ++i) CK(p[i] == 0, "byte " << i << " of a value-initialised object is not zero"); };
  switch (how) { case 0: chk(*new (buf) V{}); break; case 1: chk(*new (buf) V()); break; case 2: { auto *p = new (buf) V[3]{}; chk(p[0]); chk(p[2]); break; } case 3: { std::vector<V> v(2); v.resize(5); chk(v[0]); chk(v[4]); break; } case 4: { std::array<V, 2> v{}; chk(v[1]); break; }
    case 5: { struct S { T t; V v; }; alignas(S) unsigned char b2[sizeof(S)]; std::memset(b2, 0x5a, sizeof b2); chk((new (b2) S{})->v); break; } case 6: { std::map<int, V> m; chk(m[3]); std::optional<V> o; chk(o.emplace()); break; } default: { auto u = std::make_unique<V>(); chk(*u); chk(V{}); static V st; chk(st); } }
  c.nontrivial();
}
// histories over a population of objects
template <DIM> void history(Case &c) {
  using O = Obj<ARG>; using V = typename O::type; constexpr size_t K = O::K; using A = std::array<T, K>; struct Holder { int tag; V v; }; struct HM { int tag; A v; };
  V p[4] = {}; A m[4]; for (int i = 0; i < 4; ++i) { m[i] = gen_vals<K>(c); if (c.chance(1, 4)) { for (int q = 0; q < 2; ++q) m[i][c.below(K)] = T(0); if (i) { m[i - 1] = zero_twin(c, m[i]); p[i - 1] = O::make(m[i - 1]); } m[i] = zero_twin(c, m[i]); } p[i] = O::make(m[i]); }
  std::vector<V> vec; std::vector<A> vecm; Holder h{1, p[0]}; HM hm{1, m[0]}; std::optional<V> opt; std::optional<A> optm; alignas(V) unsigned char raw[sizeof(V)]; std::memcpy(raw, &p[1], sizeof raw); A rawm = m[1];
  auto check = [&] {
    auto eq = [&](const V &v, const A &w, const char *n, int i) { for (size_t k = 0; k < K; ++k) CK(same(O::at(v, k), w[k]), n << " " << i << ": element " << k << " is " << show(O::at(v, k)) << ", expected " << show(w[k])); A by; std::memcpy(by.data(), &v, sizeof by); CK(same_arr(by, w), n << " " << i << ": bytes differ from the value"); };
    for (int i = 0; i < 4; ++i) eq(p[i], m[i], "object", i); eq(h.v, hm.v, "member", 0); CK(h.tag == hm.tag, "member next to an object changed"); CK(vec.size() == vecm.size(), "container size"); for (size_t i = 0; i < vec.size(); ++i) eq(vec[i], vecm[i], "container element", (int)i); CK(opt.has_value() == optm.has_value(), "optional"); if (opt) eq(*opt, *optm, "optional", 0); V r; std::memcpy(&r, raw, sizeof raw); eq(r, rawm, "stored bytes", 0);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { bool e = true; for (size_t k = 0; k < K; ++k) e &= numeq(m[i][k], m[j][k]) && m[i][k] == m[i][k]; CK((p[i] == p[j]) == e, "object " << i << " == object " << j << " is " << !e); }
  };
  check(); int steps = (int)(1 + c.below(24)), done = 0; std::string log;
  for (int st = 0; st < steps; ++st) {
    int op = (int)c.below(30), i = (int)c.below(4), j = (int)c.below(4); size_t k = c.below(K), l = c.below(K); T x = gen_vals<1>(c)[0]; NOTE(c, "step " << st << ": operation " << op << " on objects " << i << ", " << j << " element " << k << ", " << l << " value " << show(x)); ++done;
    switch (op) {
      case 0: p[i] = p[j]; m[i] = m[j]; break;
      case 1: { V t = p[j]; O::put(t, k, x); CK(same(O::at(t, k), x), "a copy"); break; }
      case 2: { V t(std::move(p[j])); O::put(p[i], k, x); A tm = m[j]; m[i][k] = x; for (size_t q = 0; q < K; ++q) CK(same(O::at(t, q), tm[q]), "a moved-to object changed with another"); break; }
      case 3: p[i] = std::move(p[j]); m[i] = m[j]; break;
      case 4: { using std::swap; swap(p[i], p[j]); std::swap(m[i], m[j]); break; }
      case 5: p[i].swap(p[j]); std::swap(m[i], m[j]); break;
      case 6: std::swap(p[i], p[j]); std::swap(m[i], m[j]); break;
      case 7: dsga::swap(p[i], p[j]); std::swap(m[i], m[j]); break;
      case 8: O::put(p[i], k, x); m[i][k] = x; break;
      case 9: O::ptr(p[i])[k] = x; m[i][k] = x; break;
      case 10: { V o = std::exchange(p[i], p[j]); for (size_t q = 0; q < K; ++q) CK(same(O::at(o, q), m[i][q]), "std::exchange"); m[i] = m[j]; break; }
      case 11: vec.push_back(p[i]); vecm.push_back(m[i]); break;
      case 12: if (vec.empty()) break; l = c.below(vec.size()); vec.insert(vec.begin() + l, vec[vec.size() - 1]); { A t = vecm.back(); vecm.insert(vecm.begin() + l, t); } break;
      case 13: if (vec.empty()) break; l = c.below(vec.size()); vec.erase(vec.begin() + l); vecm.erase(vecm.begin() + l); break;
      case 14: if (vec.empty()) break; p[i] = vec[c.below(vec.size())]; m[i] = vecm[0]; { bool f = false; for (auto &q : vecm) { bool e = true; for (size_t z = 0; z < K; ++z) e &= same(O::at(p[i], z), q[z]); if (e) { m[i] = q; f = true; } } CK(f, "an object copied from a container is none of its elements"); } break;
      case 15: if (vec.size() < 2) break; std::reverse(vec.begin(), vec.end()); std::reverse(vecm.begin(), vecm.end()); break;
      case 16: if (vec.size() < 2) break; l = c.below(vec.size()); std::rotate(vec.begin(), vec.begin() + l, vec.end()); std::rotate(vecm.begin(), vecm.begin() + l, vecm.end()); break;
      case 17: if (vec.empty()) break; { auto &t = vec[c.below(vec.size())]; size_t z = &t - vec.data(); O::put(t, k, x); vecm[z][k] = x; } break;
      case 18: h.v = p[i]; hm.v = m[i]; break;
      case 19: { Holder g = h; HM gm = hm; g.v = p[j]; g.tag = 2; gm.v = m[j]; gm.tag = 2; p[i] = h.v; m[i] = hm.v; h = g; hm = gm; O::put(g.v, k, x); break; }
      case 20: opt = p[i]; optm = m[i]; break;
      case 21: if (opt) { std::swap(*opt, p[i]); std::swap(*optm, m[i]); } break;
      case 22: std::memcpy(raw, &p[i], sizeof raw); rawm = m[i]; break;
      case 23: std::memcpy(&p[i], raw, sizeof raw); m[i] = rawm; break;
      case 24: { auto f = [cp = p[i], k, x]() mutable { O::put(cp, k, x); return cp; }; p[j] = f(); A t = m[i]; t[k] = x; m[j] = t; break; }
      case 25: { auto f = [](V v, size_t k, T x) { O::put(v, k, x); return v; }; V r = f(p[i], k, x); A t = m[i]; t[k] = x; for (size_t q = 0; q < K; ++q) CK(same(O::at(r, q), t[q]), "an argument passed by value"); break; }
      case 26: O::put(p[i], k, O::at(p[j], l)); m[i][k] = m[j][l]; break;
      case 27: { auto [a, b] = std::pair<V, V>(p[i], p[j]); O::put(a, k, x); O::put(b, l, x); p[i] = b; A t = m[j]; t[l] = x; m[i] = t; break; }
#if PART < 8
      case 28: if constexpr (N >= 2 && !std::is_same_v<T, bool>) { p[i].yx = p[j].xy; A t = m[j]; m[i][1] = t[0]; m[i][0] = t[1]; } break;
      default: if constexpr (!std::is_same_v<T, bool>) { p[i] = basic_vector<T, N>(x); m[i].fill(x); } break;
#else
      case 28: { size_t a = k / R, b = l / R; p[i][a] = p[j][b]; A t = m[j]; for (size_t q = 0; q < R; ++q) m[i][a * R + q] = t[b * R + q]; break; }
      default: { size_t a = k / R, b = l / R; swap(p[i][a], p[i][b]); for (size_t q = 0; q < R; ++q) std::swap(m[i][a * R + q], m[i][b * R + q]); auto row = p[j].row((int)(l % R)); row[0] = x; auto col = p[j][0]; col[0] = x; break; }
#endif
    }
    check();
  }
  c.label(done < 8 ? "short" : "long"); c.nontrivial(done >= 2);
}
#if PART < 8
#define BY(F) void F##_all(Case &c) { switch (c.below(4)) { case 0: F<1>(c); break; case 1: F<2>(c); break; case 2: F<3>(c); break; default: F<4>(c); } }
#else
#define BY(F) void F##_all(Case &c) { with_shape(c, [&]<size_t C, size_t R>() { F<C, R>(c); }); }
#endif
BY(layout) BY(zero) BY(history)
#define NM(X) ((const char *)[] { static std::string s = std::string("C20.") + X + (PART < 8 ? ".vector." : ".matrix.") + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("storage"), 1, layout_all); PBT_PROP(NM("zero"), 0.3, zero_all); PBT_PROP(NM("history"), 1, history_all);
}
