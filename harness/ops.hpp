// Scalar reference for the binary operators.
#pragma once
#include "kinds.hpp"
enum Op { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, SHL, SHR };
inline const char *op_name[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"};
template <int OP, class T1, class T2> using op_result = std::conditional_t<(OP >= SHL), T1, std::common_type_t<T1, T2>>;

template <int OP, class X, class Y> constexpr auto op_apply(X &&x, Y &&y)
  requires (OP == ADD && requires { x + y; }) || (OP == SUB && requires { x - y; }) || (OP == MUL && requires { x * y; }) || (OP == DIV && requires { x / y; }) || (OP == MOD && requires { x % y; }) ||
           (OP == AND && requires { x & y; }) || (OP == OR && requires { x | y; }) || (OP == XOR && requires { x ^ y; }) || (OP == SHL && requires { x << y; }) || (OP == SHR && requires { x >> y; })
{
  if constexpr (OP == ADD) return x + y; else if constexpr (OP == SUB) return x - y; else if constexpr (OP == MUL) return x * y;
  else if constexpr (OP == DIV) return x / y; else if constexpr (OP == MOD) return x % y; else if constexpr (OP == AND) return x & y;
  else if constexpr (OP == OR) return x | y; else if constexpr (OP == XOR) return x ^ y; else if constexpr (OP == SHL) return x << y; else return x >> y;
}
// x op= y
template <int OP, class X, class Y> constexpr decltype(auto) op_assign(X &x, Y &&y) {
  if constexpr (OP == ADD) return (x += y); else if constexpr (OP == SUB) return (x -= y); else if constexpr (OP == MUL) return (x *= y);
  else if constexpr (OP == DIV) return (x /= y); else if constexpr (OP == MOD) return (x %= y); else if constexpr (OP == AND) return (x &= y);
  else if constexpr (OP == OR) return (x |= y); else if constexpr (OP == XOR) return (x ^= y); else if constexpr (OP == SHL) return (x <<= y); else return (x >>= y);
}
// is the built-in operation defined (no overflow, no division by zero, shift count in range)?
template <int OP, class T1, class T2> bool defined(T1 a, T2 b) {
  using R = std::common_type_t<T1, T2>;
  if constexpr (OP >= SHL) { if constexpr (std::is_signed_v<T2>) if (b < 0) return false; return (unsigned long long)b < sizeof(T1) * 8; }
  else if constexpr (std::is_floating_point_v<R>) return true;
  else {
    R x = (R)a, y = (R)b, r;
    if constexpr (OP == DIV || OP == MOD) { if (y == 0) return false; if constexpr (std::is_signed_v<R>) if (x == std::numeric_limits<R>::min() && y == R(-1)) return false; return true; }
    else if constexpr (std::is_signed_v<R>) {
      if constexpr (OP == ADD) return !__builtin_add_overflow(x, y, &r); else if constexpr (OP == SUB) return !__builtin_sub_overflow(x, y, &r);
      else if constexpr (OP == MUL) return !__builtin_mul_overflow(x, y, &r); else return true;
    } else return true;
  }
}
template <int OP, class T1, class T2> op_result<OP, T1, T2> op_ref(T1 a, T2 b) {
  using R = std::common_type_t<T1, T2>;
  if constexpr (OP == SHL) { using U = std::make_unsigned_t<T1>; return (T1)(U)((U)a << (unsigned)b); }
  else if constexpr (OP == SHR) return (T1)(a >> (unsigned)b);
  else {
    R x = (R)a, y = (R)b;
    if constexpr (OP == ADD) return x + y; else if constexpr (OP == SUB) return x - y; else if constexpr (OP == MUL) return x * y;
    else if constexpr (OP == DIV) return x / y; else if constexpr (OP == MOD) return x % y; else if constexpr (OP == AND) return x & y;
    else if constexpr (OP == OR) return x | y; else return x ^ y;
  }
}
// change operands as little as possible so that every component operation is defined
template <int OP, class T1, size_t N1, class T2, size_t N2> void make_defined(std::array<T1, N1> &a, std::array<T2, N2> &b) {
  constexpr size_t N = N1 > N2 ? N1 : N2;
  if constexpr (OP >= SHL) for (auto &y : b) y = (T2)((unsigned long long)y % (sizeof(T1) * 8));
  for (int round = 0; round < 6; ++round) {
    bool bad = false;
    for (size_t i = 0; i < N; ++i) {
      auto &x = a[N1 == 1 ? 0 : i]; auto &y = b[N2 == 1 ? 0 : i];
      if (defined<OP>(x, y)) continue;
      bad = true;
      if (N2 == N || round > 2) { y = (OP == ADD || OP == SUB) ? T2(0) : T2(1); } else x = T1(0);
      if (!defined<OP>(x, y)) y = T2(1);
    }
    if (!bad) break;
  }
}
