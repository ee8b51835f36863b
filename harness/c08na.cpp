// C08 with assertions disabled: the library is included under other namespace names (-Ddsga=..., -Dcxcm=...).
#include "pbt.hpp"
#include <dsga.hxx>
using pbt::Case; using pbt::show; using namespace dsga;
namespace {
using sz = std::size_t; using ll = long long;
template <class T, size_t N> struct Objs { basic_vector<T, N> v{}; T a[6]{}; basic_view<true, T, N> w; basic_view<false, T, N> r; view_vector<T, N> o; basic_vector<T, 4> b{}; };
template <class T, size_t N> void swz(Case &c) {
  Objs<T, N> q; for (size_t i = 0; i < N; ++i) { T x = T(c.below(50)); q.v[i] = x; q.a[i + 1] = x; q.o[i] = x; } q.w.reset(q.a + 1); q.r.reset(q.a + 1);
  int k = 1 + (int)c.below(4); sz i[4]; bool ok = true, as_int = c.coin(); sz far[] = {N, N + 1, 4, 7, 1ull << 31, 1ull << 32, (1ull << 32) + 1, ~0ull, 1ull << 63, (sz)-2};
  for (int j = 0; j < 4; ++j) { i[j] = c.chance(1, 4) ? far[c.below(10)] : c.below(N); if (as_int) i[j] = (sz)(ll)(int)i[j]; if (j < k && i[j] >= N) ok = false; }
  NOTE(c, "  " << k << " indexes " << show(std::vector<sz>(i, i + k)) << " of length " << N << (as_int ? " as int" : ""));
  auto go = [&](const auto &v, const char *kind) {
    T r[4]{}; bool threw = false, other = false; try { auto f = [&](auto... x) { if constexpr (sizeof...(x) == 1) r[0] = swizzle(v, x...); else { auto t = swizzle(v, x...); for (size_t j = 0; j < sizeof...(x); ++j) r[j] = t[j]; } };
      if (as_int) { if (k == 1) f((int)i[0]); else if (k == 2) f((int)i[0], (int)i[1]); else if (k == 3) f((int)i[0], (int)i[1], (int)i[2]); else f((int)i[0], (int)i[1], (int)i[2], (int)i[3]); }
      else { if (k == 1) f(i[0]); else if (k == 2) f(i[0], i[1]); else if (k == 3) f(i[0], i[1], i[2]); else f(i[0], i[1], i[2], i[3]); } } catch (const std::out_of_range &) { threw = true; } catch (...) { other = true; }
    CK(!other, "another exception than std::out_of_range"); CK(threw == !ok, "run-time swizzle of a " << kind << (threw ? " threw although every index is in range" : " did not throw although an index is out of range"));
    if (ok) for (int j = 0; j < k; ++j) CK(r[j] == v[i[j]], "run-time swizzle component " << j << " of a " << kind);
  };
  switch (c.below(6)) { case 0: go(q.v, "vector"); break; case 1: go(q.w, "view"); break; case 2: go(q.r, "read-only view"); break; case 3: go(q.o, "owning view"); break;
    case 4: for (size_t j = 0; j < 4; ++j) q.b[j] = T(c.below(30)); if constexpr (N == 1) go(q.b.w, "swizzle"); else if constexpr (N == 2) go(q.b.zx, "swizzle"); else if constexpr (N == 3) go(q.b.wyy, "swizzle"); else go(q.b.wzxy, "swizzle"); break;
    case 5: if constexpr (N == 1) go(q.w.x, "view swizzle"); else if constexpr (N == 2) go(q.w.yx, "view swizzle"); else if constexpr (N == 3) go(q.w.zzx, "view swizzle"); else go(q.w.wxzy, "view swizzle"); break; }
  c.nontrivial();
}
template <class T> void swizzles(Case &c) { switch (c.below(4)) { case 0: swz<T, 1>(c); break; case 1: swz<T, 2>(c); break; case 2: swz<T, 3>(c); break; default: swz<T, 4>(c); } }
template <class E, size_t C, size_t R> void null_ptr(Case &c) {
  E buf[16]; for (auto &x : buf) x = E(c.below(100)); const E *p = c.coin() ? nullptr : buf; bool threw = false, other = false; using O = std::conditional_t<std::is_same_v<E, float>, double, float>;
  try { if (c.coin()) { basic_matrix<E, C, R> q(p); for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) CK(q[i][j] == buf[i * R + j], "matrix from pointer"); } else { basic_matrix<O, C, R> q(p); for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) CK(q[i][j] == O(buf[i * R + j]), "matrix from pointer"); } }
  catch (const std::invalid_argument &) { threw = true; } catch (const pbt::Failure &) { throw; } catch (...) { other = true; }
  NOTE(c, C << "x" << R << " from " << (p ? "a good pointer" : "null")); CK(!other && threw == !p, "matrix constructor from a " << (p ? "good" : "null") << " pointer " << (threw ? "threw" : "did not throw std::invalid_argument")); c.nontrivial();
}
template <class E> void null_ptrs(Case &c) { switch (c.below(9)) { case 0: null_ptr<E, 2, 2>(c); break; case 1: null_ptr<E, 2, 3>(c); break; case 2: null_ptr<E, 2, 4>(c); break; case 3: null_ptr<E, 3, 2>(c); break; case 4: null_ptr<E, 3, 3>(c); break; case 5: null_ptr<E, 3, 4>(c); break; case 6: null_ptr<E, 4, 2>(c); break; case 7: null_ptr<E, 4, 3>(c); break; default: null_ptr<E, 4, 4>(c); } }
PBT_PROP("C08.no_asserts.runtime_swizzle.int", 0.5, swizzles<int>);
PBT_PROP("C08.no_asserts.runtime_swizzle.double", 0.5, swizzles<double>);
PBT_PROP("C08.no_asserts.matrix_pointer.float", 0.3, null_ptrs<float>);
PBT_PROP("C08.no_asserts.matrix_pointer.double", 0.3, null_ptrs<double>);
}
