#pragma once
#include <boost/hana.hpp>
#include "nb.h"
#include <array>
#include <cstdint>
#include <vector>
#include <list>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/delta.hpp>
#include <nbdl/binder/jsoncpp.hpp>
namespace hana = boost::hana;
namespace jx {
enum class es : signed char { lo = -128, no = 0, hi = 127 }; enum class eb : unsigned char { z, m = 255 }; enum ei : int { neg = INT32_MIN, zero = 0, pos = INT32_MAX }; enum class el : int64_t { a }; enum class eu : uint32_t { a };
struct scal { bool f; int i; unsigned u; char c; unsigned char uc; short s; unsigned short us; int64_t l; uint64_t ul; double d; };
struct ints { int i; unsigned u; };
struct enums { es a; eb b; ei c; el d; eu e; };
struct text { nbdl::string s; nbdl::string t; };
struct point { int x; int y; };
struct one { int v; };
struct onestr { nbdl::string v; };
using bytes = std::vector<unsigned char>;
struct bufs { bytes b; std::array<unsigned char, 3> a; nbdl::uid id; };
struct nest { point p; onestr s; std::vector<point> v; unsigned n; };
using any = nbdl::variant<int, nbdl::string, point, std::vector<int>, bool>;
struct holds { any a; nbdl::optional<int> o; int z; };
struct none {};
}
namespace nbdl {
  NBDL_ENTITY(jx::scal, f, i, u, c, uc, s, us, l, ul, d);
  NBDL_ENTITY(jx::ints, i, u);
  NBDL_ENTITY(jx::enums, a, b, c, d, e);
  NBDL_ENTITY(jx::text, s, t);
  NBDL_ENTITY(jx::point, x, y);
  NBDL_ENTITY(jx::one, v);
  NBDL_ENTITY(jx::onestr, v);
  NBDL_ENTITY(jx::bufs, b, a, id);
  NBDL_ENTITY(jx::nest, p, s, v, n);
  NBDL_ENTITY(jx::holds, a, o, z);
}
namespace {
using nbdl::binder::jsoncpp::to_string; using nbdl::binder::jsoncpp::from_string;
using std::size_t;
template <typename T> bool eq(std::vector<T> const&, std::vector<T> const&); template <typename T> bool eq(std::list<T> const&, std::list<T> const&);
template <typename D, typename... T> bool eq(nbdl::detail::variant<D, T...> const&, nbdl::detail::variant<D, T...> const&); template <typename... T> bool eq(hana::tuple<T...> const&, hana::tuple<T...> const&);
template <typename T> void gen(std::vector<T>&, const char*); template <typename T> void gen(std::list<T>&, const char*);
template <typename D, typename... T> void gen(nbdl::detail::variant<D, T...>&, const char*); template <typename... T> void gen(hana::tuple<T...>&, const char*);
template <typename T> bool eq(T const& a, T const& b) requires (std::is_integral_v<T> || std::is_enum_v<T>) { return a == b; }
inline bool eq(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
inline bool eq(std::string const& a, std::string const& b) { return a.size() == b.size() && nb_memeq(a.data(), b.data(), a.size()); }
inline bool eq(nbdl::uid const& a, nbdl::uid const& b) { return nb_memeq(a.data(), b.data(), 16); }
template <size_t N> bool eq(std::array<unsigned char, N> const& a, std::array<unsigned char, N> const& b) { return nb_memeq(a.data(), b.data(), N); }
inline bool eq(jx::point const& a, jx::point const& b) { return (a.x == b.x) & (a.y == b.y); }
inline bool eq(jx::one const& a, jx::one const& b) { return a.v == b.v; }
inline bool eq(jx::ints const& a, jx::ints const& b) { return (a.i == b.i) & (a.u == b.u); }
inline bool eq(jx::onestr const& a, jx::onestr const& b) { return eq(a.v, b.v); }
template <typename T> bool eq(std::vector<T> const& a, std::vector<T> const& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= eq(a[i], b[i]); return r; }
template <typename T> bool eq(std::list<T> const& a, std::list<T> const& b) { if (a.size() != b.size()) return false; bool r = true; auto j = b.begin(); for (auto& x : a) r &= eq(x, *j++); return r; }
inline bool eq(jx::scal const& a, jx::scal const& b) { return (a.f == b.f) & (a.i == b.i) & (a.u == b.u) & (a.c == b.c) & (a.uc == b.uc) & (a.s == b.s) & (a.us == b.us) & (a.l == b.l) & (a.ul == b.ul) & eq(a.d, b.d); }
inline bool eq(jx::enums const& a, jx::enums const& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c) & (a.d == b.d) & (a.e == b.e); }
inline bool eq(jx::text const& a, jx::text const& b) { return eq(a.s, b.s) & eq(a.t, b.t); }
inline bool eq(jx::bufs const& a, jx::bufs const& b) { return eq(a.b, b.b) & eq(a.a, b.a) & eq(a.id, b.id); }
inline bool eq(jx::nest const& a, jx::nest const& b) { return eq(a.p, b.p) & eq(a.s, b.s) & eq(a.v, b.v) & (a.n == b.n); }
template <typename D, typename... T> bool eq(nbdl::detail::variant<D, T...> const& a, nbdl::detail::variant<D, T...> const& b) {
  if (a.get_type_id() != b.get_type_id()) return false; bool r = true;
  a.match([&](auto const& x) { using X = std::decay_t<decltype(x)>; if constexpr (!std::is_empty_v<X>) b.match([&](auto const& y) { if constexpr (std::is_same_v<X, std::decay_t<decltype(y)>>) r = eq(x, y); }); });
  return r;
}
inline bool eq(jx::holds const& a, jx::holds const& b) { return eq(a.a, b.a) & eq(a.o, b.o) & (a.z == b.z); }
template <typename... T> bool eq(hana::tuple<T...> const& a, hana::tuple<T...> const& b) { bool r = true; hana::for_each(hana::zip(a, b), [&](auto const& p) { r &= eq(hana::at_c<0>(p), hana::at_c<1>(p)); }); return r; }

// arbitrary values: sizes and alternatives are forked over, contents are symbolic
template <typename T> void gen(T& x, const char* n) requires (std::is_integral_v<T> && !std::is_same_v<T, bool>) { x = nb_any<T>(n); }
inline void gen(bool& x, const char* n) { x = nb_any<bool>(n); }
template <typename T> void gen(T& x, const char* n) requires std::is_enum_v<T> { x = (T)nb_any<std::underlying_type_t<T>>(n); }
inline void gen(double& x, const char* n) { uint64_t b = nb_any<uint64_t>(n); nb_assume(((b >> 52) & 0x7ff) != 0x7ff); memcpy(&x, &b, 8); } // finite
// text: one-byte characters, U+0000 included
inline void gen(nbdl::string& x, const char* n) { std::string s = nb_string(nb_choose(nb_param("len", 2) + 1, n), n); for (char c : s) nb_assume((unsigned char)c < 128); x = nbdl::string(s); }
inline void gen(jx::bytes& x, const char* n) { std::string s = nb_string(nb_choose(nb_param("blen", 4) + 1, n), n); x.assign(s.begin(), s.end()); }
template <size_t N> void gen(std::array<unsigned char, N>& x, const char* n) { nb_make_symbolic(x.data(), N, n); }
inline void gen(nbdl::uid& x, const char* n) { nb_make_symbolic((void*)x.data(), 16, n); }
inline void gen(jx::point& x, const char* n) { gen(x.x, n); gen(x.y, n); }
inline void gen(jx::one& x, const char* n) { gen(x.v, n); }
inline void gen(jx::ints& x, const char* n) { gen(x.i, n); gen(x.u, n); }
inline void gen(jx::onestr& x, const char* n) { gen(x.v, n); }
template <typename T> void gen(std::vector<T>& x, const char* n) { x.resize(nb_choose(nb_param("n", 2) + 1, n)); for (auto& e : x) gen(e, n); }
template <typename T> void gen(std::list<T>& x, const char* n) { x.resize(nb_choose(nb_param("n", 2) + 1, n)); for (auto& e : x) gen(e, n); }
inline void gen(jx::scal& x, const char* n) { gen(x.f, n); gen(x.i, n); gen(x.u, n); gen(x.c, n); gen(x.uc, n); gen(x.s, n); gen(x.us, n); gen(x.l, n); gen(x.ul, n); gen(x.d, n); }
inline void gen(jx::enums& x, const char* n) { gen(x.a, n); gen(x.b, n); gen(x.c, n); gen(x.d, n); gen(x.e, n); }
inline void gen(jx::text& x, const char* n) { gen(x.s, n); gen(x.t, n); }
inline void gen(jx::bufs& x, const char* n) { gen(x.b, n); gen(x.a, n); gen(x.id, n); }
inline void gen(jx::nest& x, const char* n) { gen(x.p, n); gen(x.s, n); gen(x.v, n); gen(x.n, n); }
template <typename D, typename... T> void gen(nbdl::detail::variant<D, T...>& v, const char* n) {
  unsigned k = nb_choose(sizeof...(T) + 1, n), i = 0; if (k == 0) v = D{};
  ([&] { if (++i == k) { T t{}; gen(t, n); v = t; } }(), ...);
}
inline void gen(jx::holds& x, const char* n) { gen(x.a, n); gen(x.o, n); gen(x.z, n); }
template <typename... T> void gen(hana::tuple<T...>& x, const char* n) { hana::for_each(x, [&](auto& e) { gen(e, n); }); }
}
