// Shared by the matrix checks: shapes, models, generators.
#pragma once
#include "ops.hpp"
template <class F> void with_shape(Case &c, F &&f) {
  switch (c.below(9)) {
    case 0: f.template operator()<2, 2>(); break; case 1: f.template operator()<2, 3>(); break; case 2: f.template operator()<2, 4>(); break;
    case 3: f.template operator()<3, 2>(); break; case 4: f.template operator()<3, 3>(); break; case 5: f.template operator()<3, 4>(); break;
    case 6: f.template operator()<4, 2>(); break; case 7: f.template operator()<4, 3>(); break; default: f.template operator()<4, 4>(); break;
  }
}
// model of a matrix: element of column i, row j at [i * R + j]
template <class E, size_t C, size_t R> using model = std::array<E, C * R>;
template <class E, size_t C, size_t R> dsga::basic_matrix<E, C, R> mat_of(const model<E, C, R> &a) { dsga::basic_matrix<E, C, R> m; for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) m[i][j] = a[i * R + j]; return m; }
template <class E, size_t C, size_t R> model<E, C, R> model_of(const dsga::basic_matrix<E, C, R> &m) { model<E, C, R> a; for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) a[i * R + j] = m[i][j]; return a; }
