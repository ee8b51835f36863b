// C25: add-on headers in examples/. PART 0: stream and format output, 1: the STL converter
#include "kinds.hpp"
#include <compare>
#include <stdexcept>
namespace x_ {
template <class T> const char *tn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, unsigned> ? "unsigned" : std::is_same_v<T, ll> ? "long long" : std::is_same_v<T, ull> ? "unsigned long long" : std::is_same_v<T, sz> ? "size_t" : std::is_same_v<T, float> ? "float" : "double"; }
template <bool B = false, class F> void each_type(Case &c, F f) { switch (c.below(B ? 7 : 6)) { case 0: f.template operator()<int>(); break; case 1: f.template operator()<float>(); break; case 2: f.template operator()<double>(); break; case 3: f.template operator()<unsigned>(); break; case 4: f.template operator()<ll>(); break; case 5: f.template operator()<ull>(); break; default: if constexpr (B) f.template operator()<bool>(); } }
template <class F> void each_size(Case &c, F f) { switch (c.below(4)) { case 0: f.template operator()<1>(); break; case 1: f.template operator()<2>(); break; case 2: f.template operator()<3>(); break; default: f.template operator()<4>(); } }
}
#if PART == 0
#include <version> // known finding: format_output.hxx does nothing without it (probe)
#include "ostream_output.hxx"
#include "format_output.hxx"
#include <sstream>
#include <iomanip>
#if !defined(__cpp_lib_format)
#error "this part needs std::format"
#endif
using namespace dsga; using namespace x_;
namespace {
template <class T> std::string one(T v, int prec, int mode) { std::ostringstream o; if (std::is_same_v<T, bool>) o << std::boolalpha; if (prec >= 0) o << std::setprecision(prec); switch (mode) { case 1: o << std::scientific; break; case 2: o << std::fixed; break; case 3: o << std::showpos; break; case 4: o << std::hex << std::showbase; break; case 5: o << std::hexfloat; break; default:; } o << v; return o.str(); }
template <class T, size_t N> std::string joined(const std::array<T, N> &a, auto f) { std::string s = "["; for (size_t i = 0; i < N; ++i) s += (i ? ", " : "") + f(a[i]); return s + "]"; }
std::ostringstream stream(int prec, int mode) { std::ostringstream o; if (prec >= 0) o << std::setprecision(prec); switch (mode) { case 1: o << std::scientific; break; case 2: o << std::fixed; break; case 3: o << std::showpos; break; case 4: o << std::hex << std::showbase; break; case 5: o << std::hexfloat; break; default:; } return o; }
template <class T> const char *spec(Case &c) {
  static const char *fl[]{"{}", "{:10.5}", "{:a}", "{:A}", "{:+}", "{: }", "{:.3e}", "{:12.4f}", "{:<9}", "{:*^20}", "{:#.3g}", "{:015.6g}", "{:.17}"}, *in[]{"{}", "{:5}", "{:<8}", "{:+}", "{:x}", "{:#b}", "{:08}", "{:*^24}", "{:#o}", "{:X}"}, *bo[]{"{}", "{:6}", "{:d}", "{:>8}", "{:#x}"};
  if constexpr (std::is_same_v<T, bool>) return bo[c.below(5)]; else if constexpr (std::is_floating_point_v<T>) return fl[c.below(13)]; else return in[c.below(10)];
}
template <class V> std::string print(const V &v, int prec, int mode) { auto o = stream(prec, mode); o << v; return o.str(); }
template <class T, size_t N> void vec(Case &c) {
  std::array<T, N> a = gen_arr_any<T, N>(c); int prec = (int)c.range(-1, 18), mode = (int)c.below(6); const char *sp = spec<T>(c); NOTE(c, tn<T>() << " " << show(a) << ", precision " << prec << ", mode " << mode << ", format " << sp);
  auto os = [&](T v) { return one(v, prec, mode); }; auto fs = [&](T v) { return std::vformat(sp, std::make_format_args(v)); };
  auto both = [&](const char *kind, const auto &v, const auto &m) { std::string w = joined(m, os), g = print(v, prec, mode); CK(g == w, kind << ": stream output is \"" << g << "\", expected \"" << w << "\""); std::string fw = joined(m, fs), fg = std::vformat(sp, std::make_format_args(v)); CK(fg == fw, kind << ": formatted as \"" << fg << "\", expected \"" << fw << "\""); };
  with_pair(c, a, a, [&](const auto &x, const auto &mx, const auto &y, const auto &my) { both("first operand", x, mx); both("second operand", y, my); });
  basic_vector<T, N> v{}; storage_wrapper<true, T, N> sw{}; for (size_t i = 0; i < N; ++i) v[i] = sw[i] = a[i]; std::array<T, N> d = a; both("basic_vector", v, a); both("storage_wrapper", sw, a); both("view_wrapper", view_wrapper<false, T, N>(d.data()), a); both("basic_view", basic_view<true, T, N>(d.data()), a); both("view_vector", view_vector<T, N>(v), a);
  std::string fa = std::vformat(sp, std::make_format_args(d)), fw = joined(a, fs); CK(fa == fw, "array formatted as \"" << fa << "\", expected \"" << fw << "\""); c.nontrivial(N > 1);
}
void vecs(Case &c) { each_type<true>(c, [&]<class T>() { each_size(c, [&]<size_t N>() { vec<T, N>(c); }); }); }
template <class T, size_t C, size_t R> void mat(Case &c) {
  basic_matrix<T, C, R> m{}; int prec = (int)c.range(-1, 18), mode = (int)c.below(6); const char *sp = spec<T>(c); std::string w = "[", f = "["; for (size_t i = 0; i < C; ++i) { auto col = gen_arr_any<T, R>(c); for (size_t j = 0; j < R; ++j) m[i][j] = col[j]; w += (i ? ", " : "") + joined(col, [&](T v) { return one(v, prec, mode); }); f += (i ? ", " : "") + joined(col, [&](T v) { return std::vformat(sp, std::make_format_args(v)); }); } w += "]"; f += "]";
  std::string g = print(m, prec, mode), h = std::vformat(sp, std::make_format_args(m)); CK(g == w, "matrix printed as \"" << g << "\", expected \"" << w << "\""); CK(h == f, "matrix formatted as \"" << h << "\", expected \"" << f << "\""); c.nontrivial();
}
void mats(Case &c) { auto go = [&]<class T>() { switch (c.below(4)) { case 0: mat<T, 2, 2>(c); break; case 1: mat<T, 2, 4>(c); break; case 2: mat<T, 3, 2>(c); break; default: mat<T, 4, 3>(c); } }; if (c.coin()) go.template operator()<float>(); else go.template operator()<double>(); }
// numbers formatted as hexadecimal floating point come back
template <class T> void hexes(Case &c) { T v = gen_any<T>(c), r = T(0.1); const char *sp[]{"{:a}", "{:+a}", "{: a}", "{:A}", "{:+A}"}; std::string s = std::vformat(sp[c.below(5)], std::make_format_args(v)); NOTE(c, s); auto res = from_format_hexfloat_chars(std::string_view(s), r); CK(res.ec == std::errc{} && res.ptr == s.data() + s.size(), "\"" << s << "\" is not read back entirely"); CK(v != v ? r != r : same(r, v), "\"" << s << "\" is read back as " << show(r)); c.nontrivial(); }
void hexs(Case &c) { if (c.coin()) hexes<float>(c); else hexes<double>(c); }
PBT_PROP("C25.print", 2, vecs); PBT_PROP("C25.print_matrix", 0.5, mats); PBT_PROP("C25.hexfloat", 0.5, hexs);
}
#endif
#if PART == 1
#include <string>
#include <filesystem>
#include <iostream>
#include <fstream>
#include <bit>
namespace conv_ { // its operator << would clash with the one of ostream_output.hxx
#include "stl.cxx"
}
using namespace conv_;
#include <sstream>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
using namespace x_;
namespace {
// every file lives in a scratch folder of this process
struct Scratch { fs::path dir; Scratch() { std::string t = (fs::temp_directory_path() / "c23-XXXXXX").string(); if (!mkdtemp(t.data())) abort(); dir = t; } ~Scratch() { std::error_code e; fs::remove_all(dir, e); } };
void put(const fs::path &p, const std::string &s) { std::ofstream o(p, std::ios::binary); o << s; } std::string get(const fs::path &p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
struct Quiet { std::streambuf *a, *b, *d; std::ostringstream o, e; std::istringstream in; Quiet(std::string s) : in(s) { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); d = std::cin.rdbuf(in.rdbuf()); std::cin.clear(); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cin.rdbuf(d); } };
int run(const fs::path &a, const fs::path &b, std::string answer = "") { Quiet q(answer); std::string s0 = "stl", s1 = a.string(), s2 = b.string(); char *av[]{s0.data(), s1.data(), s2.data(), nullptr}; try { return stl_main(3, av); } catch (const std::exception &x) { return 1000; } }
void le(std::string &s, std::uint32_t v) { for (int i = 0; i < 4; ++i) s += (char)(v >> 8 * i); }
using V3 = std::array<float, 3>; struct Facet { V3 v[3]; };
float coord(Case &c) { switch (c.below(6)) { case 0: return (float)c.range(-3, 3); case 1: return (float)c.range(-1000, 1000) / 64; case 2: return std::bit_cast<float>((std::uint32_t)c.range(0x3c000000, 0x47ffffff)) * (c.coin() ? 1 : -1); case 3: return 0; default: return (float)c.range(-100000, 100000) / 1000; } }
// a binary file is rewritten as text: every good facet, in order, with its exact vertices and its unit normal
void convert_(Case &c, bool strict_first) {
  static Scratch sc; fs::path in = sc.dir / "in.stl", out = sc.dir / "out.stl"; std::error_code ec; fs::remove(out, ec); int n = (int)c.below(6); std::string s; for (int i = 0; i < 80; ++i) s += (char)c.below(256); le(s, (std::uint32_t)n); std::vector<Facet> want;
  for (int k = 0; k < n; ++k) {
    Facet f; for (auto &v : f.v) for (auto &x : v) x = coord(c); int how = (int)c.below(8); bool good = true;
    if (how == 0) { float bad[]{NAN, INFINITY, -INFINITY}; f.v[c.below(3)][c.below(3)] = bad[c.below(3)]; good = false; } else if (how == 1) { f.v[2] = f.v[c.below(2)]; good = false; }
    NOTE(c, "facet " << k << ": " << show(f.v[0]) << " " << show(f.v[1]) << " " << show(f.v[2]) << (good ? "" : " (bad)"));
    if (good) { long double a[3], b[3], w[3]; for (int i = 0; i < 3; ++i) { a[i] = (long double)f.v[1][i] - f.v[0][i]; b[i] = (long double)f.v[2][i] - f.v[0][i]; } for (int i = 0; i < 3; ++i) w[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; long double la = sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), lb = sqrtl(b[0] * b[0] + b[1] * b[1] + b[2] * b[2]), lw = sqrtl(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); if (!(lw > 0.01L * la * lb) || lw == 0) { f.v[0] = {0, 0, 0}; f.v[1] = {1, 0, 0}; f.v[2] = {0, 0, 2}; } want.push_back(f); }
    for (int i = 0; i < 3; ++i) le(s, std::bit_cast<std::uint32_t>(c.coin() ? coord(c) : NAN)); for (auto &v : f.v) for (float x : v) le(s, std::bit_cast<std::uint32_t>(x)); s += (char)c.below(256); s += (char)c.below(256);
  }
  put(in, s); bool exists = c.below(4) == 0; if (exists) put(out, std::string(c.below(3000), 'z')); int rc = run(in, out, exists ? (c.coin() ? "\n" : "y\n") : ""); CK(get(in) == s, "the input file changed"); CK((rc == 0) == !want.empty(), "the program returned " << rc << " for " << want.size() << " good facets of " << n);
  std::string text = get(out); std::istringstream t(text); auto word = [&](const char *w) { std::string g; t >> g; CK(g == w, "\"" << g << "\" where \"" << w << "\" was expected, in:\n" << text.substr(0, 400)); }; auto number = [&] { std::string g; t >> g; char *e = nullptr; float v = std::strtof(g.c_str(), &e); CK(!g.empty() && !*e, "\"" << g << "\" is not a number"); return v; };
  word("solid"); word("dsga_example");
  for (size_t k = 0; k < want.size(); ++k) {
    Facet &f = want[k]; word("facet"); word("normal"); float nv[3]; long double a[3], b[3], w[3], lw = 0; for (int i = 0; i < 3; ++i) { nv[i] = number(); a[i] = (long double)f.v[1][i] - f.v[0][i]; b[i] = (long double)f.v[2][i] - f.v[0][i]; } for (int i = 0; i < 3; ++i) { w[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; lw += w[i] * w[i]; } lw = sqrtl(lw);
    for (int i = 0; i < 3; ++i) CK(fabsl(nv[i] - w[i] / lw) < 1e-3L, "facet " << k << ", normal component " << i << " is " << nv[i] << ", expected " << (double)(w[i] / lw));
    dsga::vec3 v0(f.v[0][0], f.v[0][1], f.v[0][2]), v1(f.v[1][0], f.v[1][1], f.v[1][2]), v2(f.v[2][0], f.v[2][1], f.v[2][2]); auto en = right_handed_normal(v0, v1, v2); for (int i = 0; i < 3; ++i) if (k == 0 && i == 0) { CK(std::fabs(nv[i] - float(en[i])) <= 1e-6f * std::fabs(float(en[i])), "the first number of the file is wrong: " << show(nv[i]) << " for " << show(float(en[i]))); if (nv[i] != en[i]) { CK(!strict_first, "the first number of the file is written with too few digits"); } } else CK(nv[i] == en[i], "facet " << k << ", normal component " << i << " reads back as " << show(nv[i]) << ", it was computed as " << show(float(en[i])));
    word("outer"); word("loop"); for (int p = 0; p < 3; ++p) { word("vertex"); for (int i = 0; i < 3; ++i) { float x = number(); CK(x == f.v[p][i], "facet " << k << " vertex " << p << " component " << i << " reads back as " << show(x) << ", it was " << show(f.v[p][i])); } } word("endloop"); word("endfacet");
  }
  word("endsolid"); word("dsga_example"); std::string rest; CK(!(t >> rest), "\"" << rest << "\" after the end"); c.nontrivial(want.size() > 1);
}
void convert(Case &c) { convert_(c, false); } void first_number(Case &c) { convert_(c, true); } // known finding: the very first number
// what is not a binary STL file is refused, and nothing is overwritten without leave
void refuse_(Case &c, int only) {
  static Scratch sc; fs::path in = sc.dir / "bad.stl", out = sc.dir / "kept.stl"; std::error_code ec; fs::remove_all(in, ec); fs::remove_all(out, ec); std::string s(80, 'h'); le(s, 1); for (float x : {0.f, 0.f, 1.f, 0.f, 0.f, 0.f, 1.f, 0.f, 0.f, 0.f, 1.f, 0.f}) le(s, std::bit_cast<std::uint32_t>(x)); s += "xx"; std::string keep = "precious"; int how = only >= 0 ? only : (int)c.below(8); if (how == 4 && only < 0) how = 8; NOTE(c, "situation " << how);
  switch (how) {
    case 0: { s.resize(c.below(s.size())); put(in, s); CK(run(in, out) == EXIT_FAILURE, "a truncated file is accepted"); CK(!fs::exists(out), "an output was made"); break; }
    case 1: { s += std::string(1 + c.below(60), 'q'); put(in, s); CK(run(in, out) == EXIT_FAILURE, "a file with extra bytes is accepted"); CK(!fs::exists(out), "an output was made"); break; }
    case 2: { std::string t = s; std::uint32_t k = (std::uint32_t)(2 + c.below(~0u - 2)); for (int i = 0; i < 4; ++i) t[80 + i] = (char)(k >> 8 * i); put(in, t); CK(run(in, out) == EXIT_FAILURE, "a wrong facet count (" << k << ") is accepted"); CK(!fs::exists(out), "an output was made"); break; }
    case 3: CK(run(in, out) == EXIT_FAILURE, "a missing file is accepted"); break;
    case 4: { fs::create_directory(in); int rc = run(in, out); CK(rc == EXIT_FAILURE, "a folder as input: " << (rc == 1000 ? "an exception escapes" : "accepted")); break; }
    case 5: { put(in, s); put(out, keep); CK(run(in, out, c.coin() ? "n\n" : "no thanks\n") == EXIT_FAILURE && get(out) == keep, "a file was overwritten without leave"); break; }
    case 6: { put(in, s); fs::path other[]{in, sc.dir / "." / "bad.stl", sc.dir / ".." / sc.dir.filename() / "bad.stl", fs::path(in)}; int k = only >= 0 ? 1 + (int)c.below(3) : 0; fs::path o = other[k]; if (k == 3) { o = sc.dir / "link.stl"; fs::remove(o, ec); if (c.coin()) fs::create_symlink(in, o); else fs::create_hard_link(in, o); } NOTE(c, "output is " << o.filename() << " form " << k); int rc = run(in, o, "y\n"); CK(rc == EXIT_FAILURE && get(in) == s, "the input file was overwritten"); fs::remove(sc.dir / "link.stl", ec); break; }
    case 7: { put(in, s); fs::create_directory(out); CK(run(in, out, "y\n") == EXIT_FAILURE && fs::is_directory(out), "a folder as output is accepted"); break; }
    default: { put(in, s); CK(run(in, sc.dir / "none" / "out.stl") == EXIT_FAILURE, "an output that cannot be written is accepted"); }
  }
  c.nontrivial();
}
// known findings, kept out of the others
void refuse(Case &c) { refuse_(c, -1); } void folder_input(Case &c) { refuse_(c, 4); } void linked_output(Case &c) { refuse_(c, 6); }
PBT_PROP("C25.stl_first_number", 0.05, first_number); PBT_PROP("C25.stl_folder_input", 0.02, folder_input); PBT_PROP("C25.stl_linked_output", 0.02, linked_output);
PBT_PROP("C25.stl", 0.3, convert); PBT_PROP("C25.stl_refuse", 0.1, refuse);
}
#endif
