// C05: histories over views, read-only views, swizzle views, owning views and the memory they look at. PART selects the element type.
#include "kinds.hpp"
#include <optional>
#include <memory>
using namespace dsga;
namespace {
template <int P> struct TypeAt; template <> struct TypeAt<0> { using t = int; using u = int; }; template <> struct TypeAt<1> { using t = float; using u = int; };
template <> struct TypeAt<2> { using t = bool; using u = bool; }; template <> struct TypeAt<3> { using t = double; using u = float; };
template <> struct TypeAt<4> { using t = unsigned; using u = int; }; template <> struct TypeAt<5> { using t = ll; using u = unsigned; };
template <> struct TypeAt<6> { using t = ull; using u = unsigned; }; template <> struct TypeAt<7> { using t = sz; using u = unsigned; };
using T = TypeAt<PART>::t; using U = TypeAt<PART>::u;
constexpr bool ASG = !std::is_same_v<T, bool>;            // there is no implicit conversion, hence no assignment to a view, for bool
constexpr int NA = 20, NW = 3, NO = 3;

struct P { int reg = 0, off = 0; };                        // where a view points: region 0 the array, 1 the vector, 2.. the four-component owning views
struct MSlot { P w[NW], r[2], s[2], k; T o[NO][4], v[4]; bool s_on = false, k_on = false; };
struct Model { T a[NA], v[4]; MSlot n[5]; T &at(P p, int i) { return p.reg == 0 ? a[p.off + i] : p.reg == 1 ? v[p.off + i] : n[4].o[p.reg - 2][p.off + i]; } };
template <size_t N> struct Sw;                             // a swizzle of a four-component view and its offsets
template <> struct Sw<1> { static auto &get(auto &w) { return w.z; } static constexpr int p[4] = {2}; };
template <> struct Sw<2> { static auto &get(auto &w) { return w.wy; } static constexpr int p[4] = {3, 1}; };
template <> struct Sw<3> { static auto &get(auto &w) { return w.ywx; } static constexpr int p[4] = {1, 3, 0}; };
template <> struct Sw<4> { static auto &get(auto &w) { return w.zxwy; } static constexpr int p[4] = {2, 0, 3, 1}; };
template <size_t N> using SwT = std::remove_cvref_t<decltype(Sw<N>::get(std::declval<basic_view<true, T, 4> &>()))>;
template <size_t N> struct Slot {
  basic_view<true, T, N> w[NW]; basic_view<false, T, N> r[2]; T g0[2]{T(1), T(0)}; view_vector<T, N> o[NO]; T g1[2]{T(0), T(1)};
  std::optional<SwT<N>> s; std::optional<basic_view<true, T, N>> k; basic_vector<T, N> v{};
};
struct World { T g0[2]{T(1), T(0)}; T a[NA]; T g1[2]{T(0), T(1)}; basic_vector<T, 4> v{}; T g2[2]{T(1), T(1)}; Slot<1> n1; Slot<2> n2; Slot<3> n3; Slot<4> n4; };
template <size_t N> Slot<N> &slot(World &w) { if constexpr (N == 1) return w.n1; else if constexpr (N == 2) return w.n2; else if constexpr (N == 3) return w.n3; else return w.n4; }
T *ptr(World &w, P p) { return p.reg == 0 ? w.a + p.off : p.reg == 1 ? w.v.data() + p.off : w.n4.o[p.reg - 2].store + p.off; }

template <size_t N> P gen_p(Case &c) { P p; p.reg = c.chance(1, 3) ? 1 + (int)c.below(1 + NO) : 0; p.off = (int)c.below(p.reg ? 5 - N : (c.coin() ? 9 : NA + 1 - N)); return p; }
T val(Case &c) { return c.chance(1, 6) ? gen_any<T>(c) : gen_small<T>(c, 40); }
U uval(Case &c) { U x = c.chance(1, 6) ? gen_any<U>(c) : gen_small<U>(c, 40); return conv_defined<T>(x) ? x : U(1); }
template <size_t N> basic_view<true, T, N> by_value(basic_view<true, T, N> v) { return v; }
template <size_t N> view_vector<T, N> pass_owning(view_vector<T, N> v) { return v; }
template <size_t N> struct Holder { int before = 1; view_vector<T, N> o; int after = 2; };

enum Act { RESET, RESET_RO, COPY_VIEW, WRITE_COPY, TAKE_SWIZZLE, WRITE_SWIZZLE, ASSIGN_VIEW, ASSIGN_TEMP, ASSIGN_OTHER, ASSIGN_SCALAR1, WRITE_INDEX, WRITE_ITER, WRITE_SET, EXTERNAL, SWAP, O_COPY_CTOR, O_MOVE_CTOR, O_ASSIGN, O_MOVE_ASSIGN,
           O_CTOR, O_SWAP, O_CONTAINER, O_VALUE, O_HOLDER, O_WRITE, DETACH, CROSS_WRITE, WRAPPER, NACT };
const char *act_name[] = {"reset", "reset of a read-only view", "copy of a view", "write through a copied view", "copy of a view's swizzle", "write through a copied swizzle", "assignment to a view", "assignment to a temporary view", "assignment from another type",
  "scalar to one-component view", "indexed write", "iterator write", "set", "external write", "swap of views", "owning view copied", "owning view moved", "owning view assigned", "owning view move-assigned", "owning view constructed", "owning views swapped", "owning views in a container",
  "owning view passed and returned", "owning view in a structure", "write to an owning view", "vector from view", "write through an overlapping view", "view_wrapper"};

template <size_t N> bool act(int a, World &W, Model &M, Case &c) {
  Slot<N> &s = slot<N>(W); MSlot &m = M.n[N]; int i = (int)c.below(NW), j = (int)c.below(NW);
  auto rd = [&](P p, T *b) { for (size_t e = 0; e < N; ++e) b[e] = M.at(p, (int)e); };
  auto wr = [&](P p, const T *b) { for (size_t e = 0; e < N; ++e) M.at(p, (int)e) = b[e]; };
  T b[4];
  auto newb = [&] { for (size_t e = 0; e < N; ++e) b[e] = val(c); };
  auto bv_ = [&] { basic_vector<T, N> v{}; for (size_t e = 0; e < N; ++e) v[e] = b[e]; return v; };
  switch (a) {
    case RESET: { P p = gen_p<N>(c); NOTE(c, "   view " << i << " -> region " << p.reg << " + " << p.off); s.w[i].reset(ptr(W, p)); m.w[i] = p; break; }
    case RESET_RO: { P p = gen_p<N>(c); int q = i & 1; if (c.coin()) s.r[q].reset((const T *)ptr(W, p)); else s.r[q].reset(ptr(W, p)); m.r[q] = p; break; }
    case COPY_VIEW: if (c.coin()) { if (c.coin()) { s.k.emplace(s.w[i]); } else { basic_view<true, T, N> t(s.w[i]); s.k.emplace(std::move(t)); } m.k = m.w[i]; } else { s.k.emplace(by_value<N>(ptr(W, m.w[j]))); m.k = m.w[j]; } m.k_on = true; break;
    case WRITE_COPY: if (!m.k_on) return false; { size_t e = c.below(N); T x = val(c); (*s.k)[e] = x; M.at(m.k, (int)e) = x; if (c.coin()) { P p = gen_p<N>(c); s.k->reset(ptr(W, p)); m.k = p; } } break;
    case TAKE_SWIZZLE: s.s.emplace(Sw<N>::get(W.n4.w[i])); m.s[0] = M.n[4].w[i]; m.s_on = true; break;
    case WRITE_SWIZZLE: if (!m.s_on) return false; { size_t e = c.below(N); T x = val(c); if (c.coin()) { (*s.s)[e] = x; M.at(m.s[0], Sw<N>::p[e]) = x; } else { newb(); [&]<size_t... I>(std::index_sequence<I...>) { s.s->set(b[I]...); }(std::make_index_sequence<N>{}); for (size_t q = 0; q < N; ++q) M.at(m.s[0], Sw<N>::p[q]) = b[q]; } } break;
    case ASSIGN_VIEW: if constexpr (ASG) {
        switch (c.below(7)) {
          case 0: { newb(); basic_vector<T, N> v = bv_(); s.w[i] = v; wr(m.w[i], b); break; }
          case 1: { rd(m.r[j & 1], b); s.w[i] = s.r[j & 1]; wr(m.w[i], b); break; }
          case 2: { for (size_t e = 0; e < N; ++e) b[e] = M.at(M.n[4].w[j], Sw<N>::p[e]); s.w[i] = Sw<N>::get(W.n4.w[j]); wr(m.w[i], b); break; }
          case 3: { for (size_t e = 0; e < N; ++e) b[e] = M.v[Sw<N>::p[e]]; s.w[i] = Sw<N>::get(W.v); wr(m.w[i], b); break; }
          case 4: { if (!m.s_on) return false; for (size_t e = 0; e < N; ++e) b[e] = M.at(m.s[0], Sw<N>::p[e]); s.w[i] = *s.s; wr(m.w[i], b); break; }
          case 5: { rd(m.w[i], b); auto &q = Sw<N>::get(W.n4.w[j]); auto &z = (q = s.w[i]); CK((const void *)&z == (const void *)&q, "assignment to a swizzle of a view returns something else"); for (size_t e = 0; e < N; ++e) M.at(M.n[4].w[j], Sw<N>::p[e]) = b[e]; break; }
          case 6: { for (size_t e = 0; e < N; ++e) b[e] = M.at(M.n[4].w[j], Sw<N>::p[e]); s.w[i] = basic_view<true, T, 4>(ptr(W, M.n[4].w[j])).template operator[]<int>(0) == T(0) ? basic_vector<T, N>(Sw<N>::get(W.n4.w[j])) : basic_vector<T, N>(Sw<N>::get(W.n4.w[j])); wr(m.w[i], b); break; }
        } } else return false; break;
    case ASSIGN_TEMP: if constexpr (ASG) { P p = gen_p<N>(c); NOTE(c, "   to region " << p.reg << " + " << p.off);
        switch (c.below(3)) { case 0: newb(); basic_view<true, T, N>(ptr(W, p)) = bv_(); wr(p, b); break;
          case 1: rd(m.r[j & 1], b); basic_view<true, T, N>(ptr(W, p)) = s.r[j & 1]; wr(p, b); break;
          case 2: newb(); s.o[j] = bv_(); for (size_t e = 0; e < N; ++e) m.o[j][e] = b[e]; if constexpr (N == 4) if (p.reg == 2 + j) return true; { basic_vector<T, N> t(s.o[j]); basic_view<true, T, N>(ptr(W, p)) = t; } wr(p, b); break; } } else return false; break;
    case ASSIGN_OTHER: if constexpr (ASG) { U u[4]; basic_vector<U, N> v{}; for (size_t e = 0; e < N; ++e) v[e] = u[e] = uval(c); basic_view<false, U, N> uv((const U *)u);
        for (size_t e = 0; e < N; ++e) b[e] = (T)u[e];
        if (c.coin()) { if (c.coin()) s.w[i] = v; else { if constexpr (!std::is_same_v<T, U>) s.w[i] = uv; else s.w[i] = v; } wr(m.w[i], b); } else { s.o[j] = v; for (size_t e = 0; e < N; ++e) m.o[j][e] = b[e]; } } else return false; break;
    case ASSIGN_SCALAR1: if constexpr (N == 1 && ASG) { T x = val(c); s.w[i] = x; M.at(m.w[i], 0) = x; U u = uval(c); basic_view<true, T, N>(ptr(W, m.w[j])) = u; M.at(m.w[j], 0) = (T)u; Sw<N>::get(W.n4.w[j]) = x; M.at(M.n[4].w[j], 2) = x; } else return false; break;
    case WRITE_INDEX: { size_t e = c.below(N); T x = val(c); if (c.coin()) s.w[i][e] = x; else s.w[i].data()[e] = x; M.at(m.w[i], (int)e) = x; break; }
    case WRITE_ITER: { newb(); size_t e = 0; if (c.coin()) for (auto &x : s.w[i]) x = b[e++]; else std::copy(b, b + N, s.w[i].begin()); wr(m.w[i], b); break; }
    case WRITE_SET: { bool own = c.coin(); newb(); if (own) for (size_t e = 0; e < N; ++e) b[e] = M.at(m.w[i], (int)(N - 1 - e));
        [&]<size_t... I>(std::index_sequence<I...>) { if (own) s.w[i].set(s.w[i][N - 1 - I]...); else s.w[i].set(b[I]...); }(std::make_index_sequence<N>{}); wr(m.w[i], b); break; }
    case EXTERNAL: { int e = (int)c.below(NA); W.a[e] = M.a[e] = val(c); e = (int)c.below(4); W.v[e] = M.v[e] = val(c); break; }
    case SWAP: { P p = m.w[i], q = m.w[j]; if (i != j && c.coin()) { q = p; q.off = std::clamp(p.off + c.range(-(int)N, (int)N), 0, (q.reg ? 4 : NA) - (int)N); s.w[j].reset(ptr(W, q)); m.w[j] = q; }
        NOTE(c, "   view " << i << " at " << p.reg << "+" << p.off << " and view " << j << " at " << q.reg << "+" << q.off);
        bool same_place = p.reg == q.reg && p.off == q.off, over = !same_place && p.reg == q.reg && std::abs(p.off - q.off) < (int)N, threw = false, alias = c.coin();
        try { if (alias) s.w[i].swap(s.w[j]); else { using std::swap; swap(s.w[i], s.w[j]); } } catch (const std::range_error &) { threw = true; }
        CK(threw == over, "swap of views " << (threw ? "threw" : "did not throw") << " although the windows " << (over ? "partly overlap" : same_place ? "are the same" : "do not overlap"));
        if (!over && !same_place) { T x[4]; rd(p, b); rd(q, x); wr(p, x); wr(q, b); c.label("swap exchanged"); } else c.label(over ? "swap threw" : "swap of the same place"); break; }
    case O_COPY_CTOR: { view_vector<T, N> n(s.o[i]); size_t e = c.below(N); n[e] = T(n[e] == T(0)); CK(same(s.o[i][e], m.o[i][e]), "writing a copy of an owning view changed the original"); CK(n.data() == n.store, "a copied owning view does not refer to its own storage");
        for (size_t q = 0; q < N; ++q) if (q != e) CK(same(n[q], m.o[i][q]), "copied owning view, element " << q); break; }
    case O_MOVE_CTOR: { view_vector<T, N> src(s.o[i]); view_vector<T, N> n(std::move(src)); CK(n.data() == n.store, "a moved owning view does not refer to its own storage"); for (size_t q = 0; q < N; ++q) CK(same(src[q], m.o[i][q]), "moving an owning view changed its source, element " << q); newb(); for (size_t e = 0; e < N; ++e) src.store[e] = b[e]; for (size_t q = 0; q < N; ++q) CK(same(n[q], m.o[i][q]), "moved owning view, element " << q); break; }
    case O_ASSIGN: { auto &z = (s.o[i] = s.o[j]); CK(&z == &s.o[i], "assignment returns something else"); for (size_t q = 0; q < N; ++q) m.o[i][q] = m.o[j][q]; break; }
    case O_MOVE_ASSIGN: { view_vector<T, N> src(s.o[j]); s.o[i] = std::move(src); for (size_t q = 0; q < N; ++q) CK(same(src[q], m.o[j][q]), "move assignment changed its source, element " << q); newb(); for (size_t e = 0; e < N; ++e) src.store[e] = b[e]; for (size_t q = 0; q < N; ++q) m.o[i][q] = m.o[j][q]; break; }
    case O_CTOR: { newb(); s.o[i] = [&] { switch (c.below(5)) {
          case 0: return [&]<size_t... I>(std::index_sequence<I...>) { return view_vector<T, N>(b[I]...); }(std::make_index_sequence<N>{});
          case 1: for (size_t e = 1; e < N; ++e) b[e] = b[0]; return view_vector<T, N>(b[0]);
          case 2: rd(m.w[j], b); if constexpr (ASG) return view_vector<T, N>(s.w[j]); else return [&]<size_t... I>(std::index_sequence<I...>) { return view_vector<T, N>(s.w[j][I]...); }(std::make_index_sequence<N>{});
          case 3: for (size_t e = 0; e < N; ++e) b[e] = M.at(M.n[4].w[j], Sw<N>::p[e]); if constexpr (ASG) return view_vector<T, N>(Sw<N>::get(W.n4.w[j])); else return [&]<size_t... I>(std::index_sequence<I...>) { return view_vector<T, N>(Sw<N>::get(W.n4.w[j])[I]...); }(std::make_index_sequence<N>{});
          default: for (auto &x : b) x = T(0); return view_vector<T, N>(); } }(); for (size_t q = 0; q < N; ++q) m.o[i][q] = b[q]; break; }
    case O_SWAP: if (i == j) return false; switch (c.below(3)) { case 0: s.o[i].swap(s.o[j]); break; case 1: std::swap(s.o[i], s.o[j]); break; case 2: { using std::swap; swap(s.o[i], s.o[j]); } } std::swap_ranges(m.o[i], m.o[i] + N, m.o[j]); break;
    case O_CONTAINER: { std::vector<view_vector<T, N>> v; std::vector<std::array<T, N>> mv; int k = 1 + (int)c.below(6);
        for (int q = 0; q < k; ++q) { std::array<T, N> x; for (auto &e : x) e = val(c); view_vector<T, N> t; for (size_t e = 0; e < N; ++e) t[e] = x[e]; if (c.coin()) { v.push_back(t); mv.push_back(x); } else { v.insert(v.begin(), t); mv.insert(mv.begin(), x); } t[0] = T(t[0] == T(0)); }
        if (c.coin()) { v.erase(v.begin()); mv.erase(mv.begin()); } if (c.coin()) { std::reverse(v.begin(), v.end()); std::reverse(mv.begin(), mv.end()); } auto v2 = v;
        for (size_t q = 0; q < v.size(); ++q) for (size_t e = 0; e < N; ++e) { CK(same(v[q][e], mv[q][e]) && same(v2[q][e], mv[q][e]), "owning view " << q << " in a container, element " << e); CK(v[q].data() == v[q].store && v2[q].data() == v2[q].store, "an owning view in a container refers to foreign storage"); } break; }
    case O_VALUE: { auto n = pass_owning<N>(s.o[i]); CK(n.data() == n.store, "a returned owning view refers to foreign storage"); for (size_t q = 0; q < N; ++q) CK(same(n[q], m.o[i][q]), "returned owning view, element " << q); s.o[j] = pass_owning<N>(n); for (size_t q = 0; q < N; ++q) m.o[j][q] = m.o[i][q]; break; }
    case O_HOLDER: { Holder<N> h{1, s.o[i], 2}; Holder<N> h2 = h, h3; h3 = h2; size_t e = c.below(N); h.o[e] = T(h.o[e] == T(0)); h2.o[e] = T(h2.o[e] == T(0)); CK(same(h3.o[e], m.o[i][e]) && same(s.o[i][e], m.o[i][e]) && h3.before == 1 && h3.after == 2, "owning views in structures are not independent"); break; }
    case O_WRITE: { size_t e = c.below(N); T x = val(c); switch (c.below(3)) { case 0: s.o[i][e] = x; break; case 1: s.o[i].data()[e] = x; break; case 2: *(s.o[i].begin() + e) = x; break; } m.o[i][e] = x; break; }
    case DETACH: { basic_vector<T, N> v(s.w[i]); rd(m.w[i], b); for (size_t e = 0; e < N; ++e) CK(same(v[e], b[e]), "vector from a view, element " << e); v[0] = T(v[0] == T(0)); break; }
    case CROSS_WRITE: { P p = m.w[i]; P q = p; q.off = std::clamp(p.off + c.range(-2, 2), 0, (q.reg ? 4 : NA) - (int)N); basic_view<true, T, N> t(ptr(W, q)); newb(); for (size_t e = 0; e < N; ++e) t[e] = b[e]; wr(q, b); break; }
    case WRAPPER: { P p = gen_p<N>(c), q = gen_p<N>(c); view_wrapper<true, T, N> x(ptr(W, p)), y; y.reset(ptr(W, q)); bool same_place = p.reg == q.reg && p.off == q.off, over = !same_place && p.reg == q.reg && std::abs(p.off - q.off) < (int)N, threw = false;
        try { if (c.coin()) x.swap(y); else { using std::swap; swap(x, y); } } catch (const std::range_error &) { threw = true; } CK(threw == over, "swap of view_wrappers " << (threw ? "threw" : "did not throw"));
        if (!over && !same_place) { T z[4]; rd(p, b); rd(q, z); wr(p, z); wr(q, b); }
        newb(); [&]<size_t... I>(std::index_sequence<I...>) { x.set(b[I]...); }(std::make_index_sequence<N>{}); wr(p, b); size_t e = c.below(N); CK(same(y[e], M.at(q, (int)e)), "view_wrapper element " << e); y[e] = T(1); M.at(q, (int)e) = T(1); break; }
  }
  return true;
}
template <size_t N> void agree_n(World &W, Model &M) {
  Slot<N> &s = slot<N>(W); MSlot &m = M.n[N];
  auto ck = [&](const char *what, int i, auto &v, auto &&at, const T *data) {
    using V = std::remove_cvref_t<decltype(v)>; size_t e = 0;
    for (size_t q = 0; q < N; ++q) { CK(same(T(std::as_const(v)[q]), at(q)), what << " " << i << " of " << N << ": element " << q << " reads " << show(T(std::as_const(v)[q])) << ", the memory it views holds " << show(at(q))); CK(same(T(v[q]), at(q)), what << " " << i << ": non-const read of " << q); }
    for (const auto &x : v) { CK(same(T(x), at(e)), what << " " << i << " of " << N << ": iteration, element " << e); ++e; }
    CK(e == N && v.size() == N && v.length() == (int)N, what << " " << i << ": wrong length");
    if (data) CK(v.data() == data && std::as_const(v).data() == data, what << " " << i << " of " << N << " points somewhere else");
    if constexpr (requires { v.x; v.base.store; }) { CK(same(T(v.x), at(0)), what << " " << i << ".x"); if constexpr (N >= 2) CK(same(T(v.yx[0]), at(1)), what << ".yx"); if constexpr (N >= 3) CK(same(T(v.zxy[0]), at(2)), what << ".zxy"); if constexpr (N == 4) CK(same(T(v.xw[1]), at(3)), what << ".xw"); }
  };
  for (int i = 0; i < NW; ++i) ck("view", i, s.w[i], [&](size_t q) { return M.at(m.w[i], (int)q); }, ptr(W, m.w[i]));
  for (int i = 0; i < 2; ++i) ck("read-only view", i, s.r[i], [&](size_t q) { return M.at(m.r[i], (int)q); }, ptr(W, m.r[i]));
  for (int i = 0; i < NO; ++i) ck("owning view", i, s.o[i], [&](size_t q) { return m.o[i][q]; }, s.o[i].store);
  if (m.k_on) ck("copied view", 0, *s.k, [&](size_t q) { return M.at(m.k, (int)q); }, ptr(W, m.k));
  if (m.s_on) ck("copied swizzle", 0, *s.s, [&](size_t q) { return M.at(m.s[0], Sw<N>::p[q]); }, nullptr);
  CK(s.g0[0] == T(1) && s.g0[1] == T(0) && s.g1[0] == T(0) && s.g1[1] == T(1), "memory next to the owning views changed");
}
void agree(World &W, Model &M) {
  for (int i = 0; i < NA; ++i) CK(same(W.a[i], M.a[i]), "external element " << i << " is " << show(W.a[i]) << ", the model has " << show(M.a[i]));
  for (int i = 0; i < 4; ++i) CK(same(W.v[i], M.v[i]), "component " << i << " of the viewed vector is " << show(T(W.v[i])) << ", the model has " << show(M.v[i]));
  agree_n<1>(W, M); agree_n<2>(W, M); agree_n<3>(W, M); agree_n<4>(W, M);
  CK(W.g0[0] == T(1) && W.g0[1] == T(0) && W.g1[0] == T(0) && W.g1[1] == T(1) && W.g2[0] == T(1) && W.g2[1] == T(1), "guard memory changed");
}
template <size_t N> void init_n(World &W, Model &M, Case &c) {
  Slot<N> &s = slot<N>(W); MSlot &m = M.n[N];
  for (int i = 0; i < NW; ++i) { m.w[i] = gen_p<N>(c); s.w[i].reset(ptr(W, m.w[i])); }
  for (int i = 0; i < 2; ++i) { m.r[i] = gen_p<N>(c); s.r[i].reset((const T *)ptr(W, m.r[i])); }
  for (int i = 0; i < NO; ++i) for (size_t e = 0; e < N; ++e) s.o[i][e] = m.o[i][e] = val(c);
}
void history(Case &c) {
  auto Wp = std::make_unique<World>(); World &W = *Wp; Model M;
  for (int i = 0; i < NA; ++i) W.a[i] = M.a[i] = val(c);
  for (int i = 0; i < 4; ++i) W.v[i] = M.v[i] = val(c);
  init_n<1>(W, M, c); init_n<2>(W, M, c); init_n<3>(W, M, c); init_n<4>(W, M, c); agree(W, M);
  NOTE(c, tname<T>() << ": array " << show(std::vector<T>(M.a, M.a + NA)));
  int n = 1 + (int)c.below(20), done = 0;
  for (int i = 0; i < n; ++i) {
    int N = 1 + (int)c.below(4), a = (int)c.below(NACT); NOTE(c, "  " << i << ": " << act_name[a] << ", length " << N);
    bool r = N == 1 ? act<1>(a, W, M, c) : N == 2 ? act<2>(a, W, M, c) : N == 3 ? act<3>(a, W, M, c) : act<4>(a, W, M, c);
    if (r) ++done; agree(W, M);
  }
  c.nontrivial(done >= 2);
}
#define NM(X) ((const char *)[] { static std::string s = std::string("C05.") + X + "." + tname<T>(); return s.c_str(); }())
PBT_PROP(NM("history"), 1, history);

// a read-only view or a const view never offers a way to write, and a mutable view cannot be made from read-only data
template <class V, size_t N> constexpr bool offers_write = requires(V &v) { v[0] = T(); } || requires(V &v) { *v.begin() = T(); } || requires(V &v) { *v.rbegin() = T(); } || requires(V &v) { *v.data() = T(); } || requires(V &v) { v.x = T(); } || requires(V &v) { v.x[0] = T(); } ||
  requires(V &v, basic_vector<T, N> o) { v = o; } || requires(V &v) { v.swap(v); } || requires(V &v) { v += T(1); } || requires(V &v) { ++v; } || requires(V &v) { v.x += T(1); } || requires(V &v) { v.xx[0] = T(); } || requires(V &v) { *v.x.begin() = T(); } || requires(V &v) { *v.x.data() = T(); } ||
  [] { return [&]<size_t... I>(std::index_sequence<I...>) { return requires(V &v) { v.set(((void)I, T())...); }; }(std::make_index_sequence<N>{}); }();
template <size_t N> void offers(Case &c) {
  bool a = offers_write<basic_view<false, T, N>, N>, b = offers_write<const basic_view<false, T, N>, N>;
  CK(!a && !b, "a read-only view of " << N << " " << tname<T>() << " offers a way to write");
  using RW = basic_view<true, T, N>; using RO = basic_view<false, T, N>;
  bool bad = std::is_constructible_v<RW, const T *> || std::is_convertible_v<const T *, RW>; CK(!bad, "a mutable view can be made from a pointer to const");
  bool ok = std::is_convertible_v<T *, RW> && std::is_convertible_v<const T *, RO> && std::is_convertible_v<T *, RO>; CK(ok, "a view cannot be made from a pointer");
  bool bad2 = std::is_constructible_v<RW, RO>; CK(!bad2, "a mutable view can be made from a read-only view"); c.nontrivial();
}
void static_rules(Case &c) { switch (c.below(4)) { case 0: offers<1>(c); break; case 1: offers<2>(c); break; case 2: offers<3>(c); break; default: offers<4>(c); } }
PBT_PROP(NM("readonly"), 0.001, static_rules);
}
