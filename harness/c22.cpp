// C22: the compile-time vocabulary. PART 0: index sequences, indexability, drawn when the check is built. 1: names of types. 2-4: kinds (vector bases / view bases / wrappers and bases). 5: concepts, conversions, deduction.
#include "pbt.hpp"
#include <dsga.hxx>
#include "names.hpp"
#include <set>
#include <map>
#ifndef VSEED
#define VSEED 1
#endif
#ifndef NSEQ
#define NSEQ 120
#endif
namespace {
using namespace dsga; using pbt::Case; using pbt::show;
using ll = long long; using ull = unsigned long long; using sz = std::size_t;
using Idx = std::vector<sz>;
template <class T> constexpr const char *id() {
  using U = std::remove_const_t<T>; constexpr bool K = std::is_const_v<T>;
#define N_(TY, S) if constexpr (std::is_same_v<U, TY>) return K ? "const " S : S; else
  N_(bool, "bool") N_(int, "int") N_(unsigned, "unsigned") N_(ll, "long long") N_(ull, "unsigned long long") N_(sz, "size_t") N_(float, "float") N_(double, "double") return "another type";
#undef N_
}
template <size_t... I> Idx list(std::index_sequence<I...>) { return {I...}; }
template <size_t N> Idx list(const std::array<sz, N> &a) { return Idx(a.begin(), a.end()); }
struct G { ull s; constexpr ull next() { s += 0x9e3779b97f4a7c15ull; ull z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } constexpr ull below(ull n) { return next() % n; } };
#if PART == 0
// one instance: everything is drawn by the compiler from the seed and the number of the row
template <int K> constexpr G row_gen() { G g{(ull)VSEED * 1000003 + K * 7919}; g.next(); return g; }
struct Row { sz s, e; Idx half, closed; Idx vals; Idx from_array[7]; Idx from_vec; sz nvec = 0; Idx arr, rev, rev2; sz size, count; Idx tuple; bool ok, writable; };
template <int K> struct D {
  static constexpr std::array<sz, 2> se = [] { auto g = row_gen<K>(); sz w = g.below(3); sz a = w == 0 ? g.below(4) : w == 1 ? g.below(40) : g.below(3) * 100 + g.below(20), b = w == 0 ? g.below(4) : w == 1 ? g.below(40) : a + g.below(9) - std::min<sz>(a, 4); return std::array<sz, 2>{a, b}; }();
  static constexpr sz len = [] { auto g = row_gen<K>(); g.next(); g.next(); g.next(); g.next(); g.next(); return 1 + g.below(K % 3 == 0 ? 9 : 4); }();
  template <class T> static constexpr std::array<T, len> vals = [] { G g{(ull)VSEED * 31 + K * 65537 + 5}; std::array<T, len> a{}; sz lim = K % 4 == 0 ? 2 : K % 4 == 1 ? 4 : 120; for (sz i = 0; i < len; ++i) a[i] = (T)g.below(lim); return a; }();
  // Size, Count, number of indexes, then indexes
  static constexpr std::array<sz, 9> ix = [] { G g{(ull)VSEED * 131 + K * 257 + 9}; std::array<sz, 9> a{}; a[0] = 1 + g.below(5); a[2] = 1 + g.below(5); a[1] = g.below(6) ? a[2] : g.below(6); for (sz i = 0; i < a[2]; ++i) a[3 + i] = g.below(g.below(7) ? a[0] : a[0] + 2); return a; }();
  template <sz... J> static constexpr auto check(std::index_sequence<J...>) {
    std::pair<bool, bool> r{indexable<ix[0], ix[1], ix[3 + J]...>, false};
    if constexpr (indexable<ix[0], ix[1], ix[3 + J]...>) r.second = writable_swizzle<ix[0], ix[1], ix[3 + J]...>;
    return r;
  }
};
template <int K> void add_row(std::vector<Row> &t) {
  using X = D<K>; Row r; r.s = X::se[0]; r.e = X::se[1]; r.half = list(make_index_range<X::se[0], X::se[1]>{}); r.closed = list(make_closed_index_range<X::se[0], X::se[1]>{});
  constexpr auto v = X::template vals<sz>; r.vals = list(v); r.from_array[0] = list(make_array_sequence<v>{});
  r.from_array[1] = list(make_array_sequence<X::template vals<int>>{}); r.from_array[2] = list(make_array_sequence<X::template vals<unsigned char>>{}); r.from_array[3] = list(make_array_sequence<X::template vals<ll>>{});
  r.from_array[4] = list(make_array_sequence<X::template vals<unsigned>>{}); r.from_array[5] = list(make_array_sequence<X::template vals<float>>{}); r.from_array[6] = list(make_array_sequence<X::template vals<double>>{});
  if constexpr (X::len <= 4) { using E = std::tuple_element_t<K % 5, std::tuple<int, unsigned, ull, float, double>>; constexpr auto w = [] { basic_vector<E, X::len> b{}; for (sz i = 0; i < X::len; ++i) b[i] = X::template vals<E>[i]; return b; }(); r.from_vec = list(make_array_sequence<w>{}); r.nvec = X::len; }
  using Q = make_array_sequence<v>; r.arr = list(make_sequence_array(Q{})); r.rev = list(make_reverse_sequence(Q{})); r.rev2 = list(make_reverse_sequence(make_reverse_sequence(make_index_range<X::se[0], X::se[1]>{})));
  r.size = X::ix[0]; r.count = X::ix[1]; r.tuple = Idx(X::ix.begin() + 3, X::ix.begin() + 3 + X::ix[2]); auto c = X::check(std::make_index_sequence<X::ix[2]>{}); r.ok = c.first; r.writable = c.second; t.push_back(std::move(r));
}
const std::vector<Row> &rows() { static const std::vector<Row> t = [] { std::vector<Row> t; [&]<int... K>(std::integer_sequence<int, K...>) { (add_row<K>(t), ...); }(std::make_integer_sequence<int, NSEQ>{}); return t; }(); return t; }
void sequences(Case &c) {
  const Row &r = rows()[c.below(rows().size())]; NOTE(c, "range " << r.s << ", " << r.e << "; values " << show(r.vals));
  Idx half, closed; for (sz x = r.s; x != r.e; r.s < r.e ? ++x : --x) half.push_back(x); closed = half; closed.push_back(r.e);
  CK(r.half == half, "make_index_range<" << r.s << ", " << r.e << "> is " << show(r.half) << ", expected " << show(half));
  CK(r.closed == closed, "make_closed_index_range<" << r.s << ", " << r.e << "> is " << show(r.closed) << ", expected " << show(closed));
  for (int k = 0; k < 7; ++k) CK(r.from_array[k] == r.vals, "make_array_sequence of an array of type " << k << " is " << show(r.from_array[k]) << ", expected " << show(r.vals));
  if (r.nvec) CK(r.from_vec == r.vals, "make_array_sequence of a vector is " << show(r.from_vec) << ", expected " << show(r.vals));
  CK(r.arr == r.vals, "make_sequence_array is " << show(r.arr) << ", expected " << show(r.vals)); CK(r.rev == Idx(r.vals.rbegin(), r.vals.rend()), "make_reverse_sequence of " << show(r.vals) << " is " << show(r.rev));
  CK(r.rev2 == half, "reversing twice gives " << show(r.rev2) << ", expected " << show(half));
  c.nontrivial(r.s != r.e && std::set<sz>(r.vals.begin(), r.vals.end()).size() > 1);
}
void indexing(Case &c) {
  const Row &r = rows()[c.below(rows().size())]; NOTE(c, "Size " << r.size << ", Count " << r.count << ", indexes " << show(r.tuple));
  bool ok = r.count == r.tuple.size() && r.count >= 1 && r.count <= 4; for (sz i : r.tuple) ok = ok && i < r.size; bool uq = std::set<sz>(r.tuple.begin(), r.tuple.end()).size() == r.tuple.size();
  CK(r.ok == ok, "indexable is " << r.ok); if (ok) CK(r.writable == uq, "writable_swizzle is " << r.writable); c.nontrivial(ok && r.tuple.size() > 1);
}
PBT_PROP("C22.sequences", 1, sequences); PBT_PROP("C22.indexable", 1, indexing);
// what must not be accepted
template <auto V> concept seq_ok = requires { typename make_array_sequence<V>; };
void rejects(Case &c) {
  c.below(1); bool neg = seq_ok<std::array<int, 2>{1, -1}>, pos = seq_ok<std::array<int, 2>{1, 1}>, negv = seq_ok<ivec2(-3, 0)>, posv = seq_ok<ivec2(3, 0)>, negf = seq_ok<std::array<double, 2>{1.0, -1.0}>;
  CK(pos && posv, "make_array_sequence rejects non-negative values"); CK(!neg && !negv && !negf, "make_array_sequence accepts negative values"); c.nontrivial();
}
PBT_PROP("C22.rejects", 0.1, rejects);
#elif PART == 1
// every named type says its element type and dimensions in its name
struct Facts { std::string kind, elem; sz a = 0, b = 0; bool mut = true; };
template <class V> struct facts; 
template <class T, sz N> struct facts<basic_vector<T, N>> { static Facts get() { return {"vector", id<T>(), N, 0, true}; } };
template <bool M, class T, sz N> struct facts<basic_view<M, T, N>> { static Facts get() { return {"view", id<T>(), N, 0, M}; } };
template <class T, sz C, sz R> struct facts<basic_matrix<T, C, R>> { static Facts get() { return {"matrix", id<T>(), C, R, true}; } };
struct Named { const char *name; Facts f; };
const std::vector<Named> &named() {
#define A(X) {#X, facts<X>::get()},
#define P4(p) A(p##1) A(p##2) A(p##3) A(p##4)
#define P3(p) A(p##2) A(p##3) A(p##4)
#define M3(p) A(p##2) A(p##3) A(p##4) A(p##2x2) A(p##2x3) A(p##2x4) A(p##3x2) A(p##3x3) A(p##3x4) A(p##4x2) A(p##4x3) A(p##4x4)
  static const std::vector<Named> t{A(bscal) A(iscal) A(uscal) A(llscal) A(ullscal) A(scal) A(fscal) A(dscal) P3(bvec) P3(ivec) P3(uvec) P3(llvec) P3(ullvec) P3(vec) P3(fvec) P3(dvec) M3(mat) M3(dmat)
    P4(bview) P4(iview) P4(uview) P4(llview) P4(ullview) P4(view) P4(fview) P4(dview) P4(cbview) P4(ciview) P4(cuview) P4(cllview) P4(cullview) P4(cview) P4(cfview) P4(cdview)};
  return t;
}
void names(Case &c) {
  const Named &n = named()[c.below(named().size())]; std::string s = n.name; NOTE(c, s); Facts w;
  auto eat = [&](const char *p) { sz l = std::strlen(p); if (s.compare(0, l, p) == 0) { s.erase(0, l); return true; } return false; };
  if (s.find("view") != std::string::npos && s[0] == 'c') { w.mut = false; s.erase(0, 1); }
  w.elem = eat("ull") ? "unsigned long long" : eat("ll") ? "long long" : eat("b") ? "bool" : eat("i") ? "int" : eat("u") ? "unsigned" : eat("f") ? "float" : eat("d") ? "double" : "float";
  if (eat("scal")) { w.kind = "vector"; w.a = 1; } else if (eat("vec")) { w.kind = "vector"; w.a = s[0] - '0'; } else if (eat("view")) { w.kind = "view"; w.a = s[0] - '0'; } else if (eat("mat")) { w.kind = "matrix"; w.a = s[0] - '0'; w.b = (s.size() > 1 ? s[2] : s[0]) - '0'; }
  CK(n.f.kind == w.kind && n.f.elem == w.elem && n.f.a == w.a && n.f.b == w.b && n.f.mut == w.mut, n.name << " is a " << n.f.kind << " of " << n.f.elem << " " << n.f.a << (n.f.b ? "x" + std::to_string(n.f.b) : "") << (n.f.mut ? "" : " (read-only)"));
  c.nontrivial();
}
PBT_PROP("C22.names", 1, names);
#elif PART < 5
struct Kind { std::string what, elem, telem, vt; sz size, count, len, sizefn, tsize; bool writable, mut; Idx offsets, seq, pack; std::string want_elem; sz want_size; Idx want; bool want_mut; int layout; bool rw_index, rw_data, rw_set, const_ok; };
template <class V> void fill(Kind &k, const V *) {
  using U = std::remove_const_t<V>; k.elem = k.vt = id<typename U::value_type>(); k.telem = id<std::tuple_element_t<0, U>>(); constexpr sz NC = std::tuple_size_v<U>; k.count = k.tsize = NC; if constexpr (requires { U::Count; }) k.count = U::Count; k.writable = U::Writable;
  k.offsets = list(U::offsets); k.seq = list(decltype(std::declval<const U &>().sequence()){}); k.pack = list(typename U::sequence_pack{}); k.sizefn = decltype(U::size){}();
  if constexpr (requires { U::Size; }) k.size = U::Size; else k.size = k.want_size; if constexpr (requires { U::Mutable; }) k.mut = U::Mutable; else k.mut = k.want_mut;
  [&]<sz... I>(std::index_sequence<I...>) { ((void)(id<std::tuple_element_t<I, U>>() == k.telem || (k.telem = "different for different elements", true)), ...); }(std::make_index_sequence<NC>{});
  using T = typename U::value_type;
  auto writes = [&]<class R>(std::type_identity<R>) { return std::is_same_v<R, T &> || (std::is_pointer_v<R> && !std::is_const_v<std::remove_pointer_t<R>>); };
  k.rw_index = requires (U &u) { u[0]; } && writes(std::type_identity<decltype(std::declval<U &>()[0])>{}); k.rw_data = writes(std::type_identity<decltype(std::declval<U &>().data())>{});
  k.rw_set = [&]<sz... I>(std::index_sequence<I...>) { return requires (U &u) { u.set(((void)I, std::declval<T>())...); }; }(std::make_index_sequence<NC>{});
}
template <class V> void add(std::vector<Kind> &t, std::string what, std::string elem, sz base, Idx want, bool mut, sz bytes) {
  Kind k; k.what = what; k.want_elem = elem; k.want_size = base; k.want = want; k.want_mut = mut; k.len = want.size(); fill(k, (V *)nullptr);
  k.layout = !std::is_standard_layout_v<V> && what.compare(0, 11, "view_vector") ? 1 : !std::is_trivially_destructible_v<V> ? 2 : bytes && sizeof(V) != bytes ? 3 : bytes && !std::is_trivially_copy_constructible_v<V> ? 4 : 0; t.push_back(std::move(k));
}
Idx iota(sz n) { Idx r; for (sz i = 0; i < n; ++i) r.push_back(i); return r; }
template <class F> void all_types(F f) { f.template operator()<bool>(); f.template operator()<int>(); f.template operator()<unsigned>(); f.template operator()<ll>(); f.template operator()<ull>(); f.template operator()<sz>(); f.template operator()<float>(); f.template operator()<double>(); }
using SW = std::tuple_element_t<VSEED % 8, std::tuple<bool, int, unsigned, ll, ull, sz, float, double>>;   // the element type of the swizzles below
using SW2 = std::tuple_element_t<(VSEED + 3) % 8, std::tuple<bool, int, unsigned, ll, ull, sz, float, double>>;
Idx letters(const char *s) { Idx r; for (; *s; ++s) r.push_back(*s == 'w' ? 3 : *s - 'x'); return r; }
const std::vector<Kind> &kinds() {
  static const std::vector<Kind> t = [] { std::vector<Kind> t;
    auto each = [&]<class T, sz N>() { std::string e = id<T>(), n = " of " + std::to_string(N) + " " + e;
#if PART == 2
      add<basic_vector<T, N>>(t, "basic_vector" + n, e, N, iota(N), true, N * sizeof(T));
#elif PART == 3
      add<basic_view<true, T, N>>(t, "basic_view" + n, e, N, iota(N), true, 0); add<basic_view<false, T, N>>(t, "read-only basic_view" + n, e, N, iota(N), false, 0); add<view_vector<T, N>>(t, "view_vector" + n, e, N, iota(N), true, 0);
#else
      add<storage_wrapper<true, T, N>>(t, "storage_wrapper" + n, e, N, iota(N), true, N * sizeof(T)); add<storage_wrapper<false, T, N>>(t, "read-only storage_wrapper" + n, e, N, iota(N), false, N * sizeof(T));
      add<view_wrapper<true, T, N>>(t, "view_wrapper" + n, e, N, iota(N), true, sizeof(T *)); add<view_wrapper<false, T, N>>(t, "read-only view_wrapper" + n, e, N, iota(N), false, sizeof(T *));
#endif
    };
    all_types([&]<class T>() { each.template operator()<T, 1>(); each.template operator()<T, 2>(); each.template operator()<T, 3>(); each.template operator()<T, 4>(); });
#define V_(NAME, CNT, a, b, c, d, W) add<std::remove_cvref_t<decltype(std::declval<basic_vector<SW, B> &>().NAME)>>(t, "vector swizzle ." #NAME " of " + std::to_string(B), id<SW>(), B, letters(#NAME), true, B * sizeof(SW));
#define M_(NAME, CNT, a, b, c, d, W) add<std::remove_cvref_t<decltype(std::declval<basic_view<true, SW, B> &>().NAME)>>(t, "view swizzle ." #NAME " of " + std::to_string(B), id<SW>(), B, letters(#NAME), true, sizeof(SW *)); \
  add<std::remove_cvref_t<decltype(std::declval<basic_view<false, SW2, B> &>().NAME)>>(t, "read-only view swizzle ." #NAME " of " + std::to_string(B), id<SW2>(), B, letters(#NAME), false, sizeof(SW2 *));
#if PART == 2
    { constexpr sz B = 1; NAMES1(V_) } { constexpr sz B = 2; NAMES2(V_) } { constexpr sz B = 3; NAMES3(V_) } { constexpr sz B = 4; NAMES4(V_) }
#elif PART == 3
    { constexpr sz B = 1; NAMES1(M_) } { constexpr sz B = 2; NAMES2(M_) } { constexpr sz B = 3; NAMES3(M_) } { constexpr sz B = 4; NAMES4(M_) }
#endif
    return t; }();
  return t;
}
void kind_facts(Case &c) {
  const Kind &k = kinds()[c.below(kinds().size())]; NOTE(c, k.what); bool uq = std::set<sz>(k.want.begin(), k.want.end()).size() == k.want.size(), rw = uq && k.want_mut; std::string te = rw ? k.want_elem : "const " + k.want_elem;
  CK(k.elem == k.want_elem, k.what << ": value_type is " << k.elem); CK(k.telem == te, k.what << ": tuple_element is " << k.telem << ", expected " << te);
  CK(k.size == k.want_size, k.what << ": Size is " << k.size); CK(k.count == k.want.size() && k.sizefn == k.want.size() && k.tsize == k.want.size(), k.what << ": Count is " << k.count << ", size " << k.sizefn << ", tuple_size " << k.tsize << ", expected " << k.want.size());
  CK(k.writable == (k.what.find("basic_view") != std::string::npos ? rw : uq), k.what << ": Writable is " << k.writable); CK(k.mut == k.want_mut, k.what << ": Mutable is " << k.mut);
  CK(k.offsets == k.want, k.what << ": offsets " << show(k.offsets) << ", expected " << show(k.want)); CK(k.seq == k.want, k.what << ": sequence() " << show(k.seq) << ", expected " << show(k.want)); CK(k.pack == k.want, k.what << ": sequence_pack " << show(k.pack) << ", expected " << show(k.want));
  CK(k.layout == 0, k.what << ": " << (k.layout == 1 ? "is not standard layout" : k.layout == 2 ? "is not trivially destructible" : k.layout == 3 ? "has another size than its storage" : "is not trivially copyable"));
  CK(k.rw_index == rw, k.what << ": operator [] gives write access: " << k.rw_index); CK(k.rw_data == rw, k.what << ": data() gives write access: " << k.rw_data); CK(k.rw_set == rw, k.what << ": set() is callable: " << k.rw_set);
  c.nontrivial(k.want.size() > 1);
}
PBT_PROP(PART == 2 ? "C22.kinds.vector" : PART == 3 ? "C22.kinds.view" : "C22.kinds.wrapper", 1, kind_facts);
#if PART == 4
// the generic base of every kind, matrices, and the names for swizzle types
struct Simple { std::string what; ll got, want; };
const std::vector<Simple> &simple() {
  static const std::vector<Simple> t = [] { std::vector<Simple> t; auto put = [&](std::string w, ll g, ll x) { t.push_back({w, g, x}); };
    all_types([&]<class T>() { std::string e = id<T>();
      [&]<sz... N>(std::index_sequence<N...>) { ([&] { constexpr sz S = N + 1; std::string n = e + " " + std::to_string(S); using V = basic_vector<T, S>; using BW = vector_base<true, T, S, V>; using BC = vector_base<false, T, S, V>;
        put("tuple_size of vector_base of " + n, std::tuple_size_v<BW>, S); put("tuple_element of a writable vector_base of " + n + " is the type", std::is_same_v<std::tuple_element_t<S - 1, BW>, T>, 1); put("tuple_element of a read-only vector_base of " + n + " is const", std::is_same_v<std::tuple_element_t<S - 1, BC>, const T>, 1);
        put("dimensional_storage of " + n, dimensional_storage<T, S>, 1); put("dimensional_storage_t of " + n + " has the length", std::tuple_size_v<dimensional_storage_t<T, S>>, S); put("dimensional_storage_t of " + n + " has the type", std::is_same_v<typename dimensional_storage_t<T, S>::value_type, T>, 1);
        put("a vector of " + n + " derives from its base", std::is_base_of_v<vector_base<true, T, S, V>, V>, 1);
        }(), ...); }(std::make_index_sequence<4>{});
      put("dimensional_storage of no " + e, dimensional_storage<T, 0>, 0); put("dimensional_storage of 5 " + e, dimensional_storage<T, 5>, 0);
#define DX(M, k, ...) put("dexvec" #k "<" #M ", " + e + ", 4, " #__VA_ARGS__ ">", std::is_same_v<dexvec##k<M, T, 4, __VA_ARGS__>, indexed_vector<M, T, 4, k, __VA_ARGS__>>, 1); put("dexview" #k "<" #M ", " + e + ", 4, " #__VA_ARGS__ ">", std::is_same_v<dexview##k<M, T, 4, __VA_ARGS__>, indexed_view<M, T, 4, k, __VA_ARGS__>>, 1);
      DX(true, 1, 3) DX(false, 1, 2) DX(true, 2, 3, 1) DX(false, 2, 1, 1) DX(true, 3, 2, 0, 1) DX(false, 3, 3, 3, 0) DX(true, 4, 3, 2, 1, 0) DX(false, 4, 0, 2, 2, 1)
    });
    auto mats = [&]<class T>() { [&]<sz... K>(std::index_sequence<K...>) { ([&] { constexpr sz C = K / 3 + 2, R = K % 3 + 2; using M = basic_matrix<T, C, R>; std::string n = std::string(id<T>()) + " matrix " + std::to_string(C) + "x" + std::to_string(R);
      put("tuple_size of " + n, std::tuple_size_v<M>, C); put("tuple_element of " + n + " is a column", std::is_same_v<std::tuple_element_t<C - 1, M>, basic_vector<T, R>>, 1); put("column 0 type of " + n, std::is_same_v<std::tuple_element_t<0, M>, basic_vector<T, R>>, 1); put("size of " + n, decltype(M::size){}(), C); put("column_size of " + n, decltype(M::column_size){}(), R); put("ComponentCount of " + n, M::ComponentCount, C * R);
      put("length() of " + n, M{}.length(), C); put("column_length() of " + n, M{}.column_length(), R); put("sizeof " + n, sizeof(M), C * R * sizeof(T)); put(n + " is standard layout", std::is_standard_layout_v<M>, 1); put(n + " is trivially copyable", std::is_trivially_copyable_v<M>, 1);
      }(), ...); }(std::make_index_sequence<9>{}); };
    mats.template operator()<float>(); mats.template operator()<double>();
    return t; }();
  return t;
}
void simple_facts(Case &c) { const Simple &s = simple()[c.below(simple().size())]; NOTE(c, s.what); CK(s.got == s.want, s.what << " is " << s.got << ", expected " << s.want); c.nontrivial(); }
PBT_PROP("C22.facts", 1, simple_facts);
#endif
#else
// concepts against membership lists, conversions against the language's own common type, deduction guides
using Ty = std::tuple<bool, int, unsigned, ll, ull, sz, float, double, char, signed char, unsigned char, short, unsigned short, long, long double, int *, void *, ivec2, std::array<int, 2>, const int, int &, const double, volatile float, char16_t, const bool, float &&>;
constexpr const char *ty_name[] = {"bool", "int", "unsigned", "long long", "unsigned long long", "size_t", "float", "double", "char", "signed char", "unsigned char", "short", "unsigned short", "long", "long double", "int *", "void *", "ivec2", "std::array<int, 2>", "const int", "int &", "const double", "volatile float", "char16_t", "const bool", "float &&"};
constexpr int NT = std::tuple_size_v<Ty>;
struct Cls { std::array<bool, 7> in; };
const std::vector<Cls> &classes() { static const std::vector<Cls> t = [] { std::vector<Cls> t; [&]<int... I>(std::integer_sequence<int, I...>) { (t.push_back([] { using T = std::tuple_element_t<I, Ty>; return Cls{{bool_scalar<T>, signed_scalar<T>, unsigned_scalar<T>, numeric_integral_scalar<T>, floating_point_scalar<T>, non_bool_scalar<T>, dimensional_scalar<T>}}; }()), ...); }(std::make_integer_sequence<int, NT>{}); return t; }(); return t; }
void concepts(Case &c) {
  int k = c.below(NT); std::string n = ty_name[k]; NOTE(c, n); auto is = [&](std::initializer_list<const char *> l) { for (auto x : l) if (n == x) return true; return false; };
  bool b = is({"bool"}), s = is({"int", "long long"}), u = is({"unsigned", "unsigned long long", "size_t"}), f = is({"float", "double"}); bool want[7]{b, s, u, s || u, f, s || u || f, b || s || u || f};
  const char *nm[]{"bool_scalar", "signed_scalar", "unsigned_scalar", "numeric_integral_scalar", "floating_point_scalar", "non_bool_scalar", "dimensional_scalar"};
  for (int i = 0; i < 7; ++i) CK(classes()[k].in[i] == want[i], nm[i] << "<" << n << "> is " << classes()[k].in[i]); c.nontrivial(want[6]);
}
// the language's usual arithmetic conversions as the reference for which type is the common one
using AT = std::tuple<bool, int, unsigned, ll, ull, sz, float, double>; constexpr const char *at_name[] = {"bool", "int", "unsigned", "long long", "unsigned long long", "size_t", "float", "double"};
struct Pr { bool prom, impl, vecconv, vecassign; };
const std::vector<Pr> &pairs() { static const std::vector<Pr> t = [] { std::vector<Pr> t; [&]<int... I>(std::integer_sequence<int, I...>) { (t.push_back([] { using T = std::tuple_element_t<I / 8, AT>; using U = std::tuple_element_t<I % 8, AT>;
  return Pr{promotes_to<T, U> && promotes_to<const T &, U> && promotes_to<T, U &&>, implicitly_convertible_to<T, U>, std::is_convertible_v<basic_vector<T, 3>, basic_vector<U, 3>>, std::is_assignable_v<basic_vector<U, 3> &, basic_vector<T, 3>>}; }()), ...); }(std::make_integer_sequence<int, 64>{}); return t; }(); return t; }
void conversions(Case &c) {
  int i = c.below(8), j = c.below(8); const Pr &p = pairs()[i * 8 + j]; NOTE(c, at_name[i] << " to " << at_name[j]);
  // rank: integers by size then sign, then float, double; size_t and unsigned long long: same size, converting either way gives unsigned long long
  auto ar = [](int k) { return k == 0 ? 0 : k; }; bool prom = i == j || (ar(i) < ar(j)); if (i == 5 && j == 4) prom = true; if (j == 5 && (i == 4 || i == 3)) prom = false;   // long long with size_t gives unsigned long long
  CK(p.prom == prom, "promotes_to is " << p.prom); bool impl = prom && i && j; CK(p.impl == impl, "implicitly_convertible_to is " << p.impl); CK(p.vecconv == (i == j || impl), "vectors convert implicitly: " << p.vecconv); CK(p.vecassign == (i == j || impl), "vectors assign: " << p.vecassign); c.nontrivial(i != j);
}
// deduction: first argument's type, number of arguments; any kind of vector gives a vector of its type and length
template <class V> struct dec { static std::string get() { return "something else"; } };
template <class T, sz N> struct dec<basic_vector<T, N>> { static std::string get() { return "basic_vector " + std::string(id<T>()) + " " + std::to_string(N); } };
template <class T, sz N> struct dec<view_vector<T, N>> { static std::string get() { return "view_vector " + std::string(id<T>()) + " " + std::to_string(N); } };
template <bool M, class T, sz N> struct dec<storage_wrapper<M, T, N>> { static std::string get() { return (M ? "storage_wrapper " : "read-only storage_wrapper ") + std::string(id<T>()) + " " + std::to_string(N); } };
struct Ded { std::string what, got, want; };
const std::vector<Ded> &deds() { static const std::vector<Ded> t = [] { std::vector<Ded> t;
  [&]<int... I>(std::integer_sequence<int, I...>) { ([&] { using A = std::tuple_element_t<I % 8, AT>; using B = std::tuple_element_t<(I / 8) % 8, AT>; constexpr sz N = 1 + I / 64; A a{}; B b{}; std::string e = id<A>(), n = " " + e + " " + std::to_string(N);
    constexpr bool conv = (I % 8 == 0) == ((I / 8) % 8 == 0); auto put = [&](std::string w, std::string g, std::string x) { t.push_back({w + " from " + e + (N > 1 ? " and " + std::string(id<B>()) : std::string()), g, x}); };
    if constexpr (N == 1) { put("basic_vector", dec<decltype(basic_vector(a))>::get(), "basic_vector" + n); put("view_vector", dec<decltype(view_vector(a))>::get(), "view_vector" + n); put("storage_wrapper", dec<decltype(storage_wrapper{a})>::get(), "storage_wrapper" + n); }
    else if constexpr (conv) { auto mk = [&](auto f) { if constexpr (N == 2) return f(a, b); else if constexpr (N == 3) return f(a, b, b); else return f(a, b, a, b); };
      put("basic_vector", mk([](auto... x) { return dec<decltype(basic_vector(x...))>::get(); }), "basic_vector" + n); put("view_vector", mk([](auto... x) { return dec<decltype(view_vector(x...))>::get(); }), "view_vector" + n);
      if constexpr (std::is_same_v<A, B>) put("storage_wrapper", mk([](auto... x) { return dec<decltype(storage_wrapper{x...})>::get(); }), "storage_wrapper" + n); }
    if constexpr ((I / 8) % 8 == 0) { basic_vector<A, 4> v{}; const auto &cv = v; A d[4]{}; basic_view<true, A, N> w(d); basic_view<false, A, N> cw(d); view_vector<A, N> vv; auto both = [&](const char *k, auto &&x) { put(std::string("basic_vector of ") + k, dec<decltype(basic_vector(x))>::get(), "basic_vector" + n); put(std::string("view_vector of ") + k, dec<decltype(view_vector(x))>::get(), "view_vector" + n); };
      basic_vector<A, N> u{}; both("a vector", u); both("a view", w); both("a read-only view", cw); both("an owning view", vv);
      auto sw = [&](auto &&x, auto &&cx) { both("a swizzle", x); both("a swizzle of a constant", cx); }; if constexpr (N == 1) sw(v.z, cv.w); else if constexpr (N == 2) sw(v.zx, cv.ww); else if constexpr (N == 3) sw(v.wzx, cv.xxy); else sw(v.wzyx, cv.xxyy);
      both("a swizzle of a view", [&]() -> auto & { if constexpr (N == 1) return w.x; else if constexpr (N == 2) return w.yx; else if constexpr (N == 3) return w.zxx; else return w.wwzx; }()); }
    }(), ...); }(std::make_integer_sequence<int, 256>{});
  return t; }(); return t; }
void deduction(Case &c) { const Ded &d = deds()[c.below(deds().size())]; NOTE(c, d.what); CK(d.got == d.want, d.what << " is a " << d.got << ", expected " << d.want); c.nontrivial(); }
// to_underlying gives the number and the type behind an enumerator
enum E1 : signed char { a1 = -3 }; enum class E2 : ull { a = 1 }; enum class E3 { a = 7 }; enum E4 : unsigned short { a4 };
template <class E> void one_enum(Case &c) { using U = std::underlying_type_t<E>; constexpr bool ty = std::is_same_v<decltype(functions::to_underlying(E{})), U>; U x = (U)(c.coin() ? c.below(256) : c.below(0)); U got = functions::to_underlying((E)x); NOTE(c, "value " << (ll)x); CK(ty, "to_underlying has another type"); CK(got == x, "to_underlying is " << (ll)got); c.nontrivial(x != 0); }
void enums(Case &c) { switch (c.below(4)) { case 0: one_enum<E1>(c); break; case 1: one_enum<E2>(c); break; case 2: one_enum<E3>(c); break; default: one_enum<E4>(c); } }
PBT_PROP("C22.concepts", 1, concepts); PBT_PROP("C22.conversions", 1, conversions); PBT_PROP("C22.deduction", 1, deduction); PBT_PROP("C22.enum", 1, enums);
#endif
}
