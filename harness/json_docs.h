#pragma once
#include "json_types.h"
// documents for a type: of its shape, or with up to `odd` places that deviate from it; numbers, truth values and characters are symbolic
namespace {
using Json::Value;
int odd_left = 0;
inline bool odd() { if (odd_left <= 0 || !nb_choose(2, "deviate")) return false; --odd_left; return true; }
inline double real_bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline Value any_real() { if (!nb_param("reals", 0)) { static const uint64_t ex[] = {0, 1022, 1023, 1030, 1053, 1054, 1075, 1085, 1086, 1087, 2046}; uint64_t e = ex[nb_choose(11, "exponent")], b = nb_any<uint64_t>("real"); return Value(real_bits((b & 0x800fffffffffffffull) | e << 52)); }
  uint64_t b = nb_any<uint64_t>("real"); nb_assume(((b >> 52) & 0x7ff) != 0x7ff); return Value(real_bits(b)); }
inline Value any_text() { nbdl::string s; gen(s, "text"); return Value(std::string(s)); }
inline Value big_int() { return nb_choose(2, "unsigned") ? Value((Json::UInt64)nb_any<uint64_t>("num")) : Value((Json::Int64)nb_any<int64_t>("num")); }
enum { K_NULL, K_BOOL, K_INT, K_REAL, K_TEXT, K_ARR0, K_ARR1, K_ARR2, K_ARR3, K_OBJ0, K_OBJ1, K_N };
inline Value simple(unsigned k) {
  switch (k) { case K_NULL: return Value(); case K_BOOL: return Value(nb_any<bool>("flag")); case K_INT: return big_int(); case K_REAL: return any_real(); case K_TEXT: return any_text(); case K_ARR0: return Value(Json::arrayValue); case K_OBJ0: return Value(Json::objectValue);
    case K_OBJ1: { Value v(Json::objectValue); v["w"] = Value((Json::Int64)nb_any<int>("num")); return v; }
    default: { Value v(Json::arrayValue); for (unsigned i = K_ARR0; i < k; i++) v.append(nb_choose(2, "el") ? Value((Json::Int64)nb_any<int>("num")) : Value("")); return v; } }
}
inline Value odd_doc() { return simple(nb_choose(K_N, "kind")); }
template <typename T> struct of;
template <typename T> Value doc() { return odd() ? odd_doc() : of<T>::proper(); }
// holds(d, v): the document d holds exactly the value v. fits(d): d is of the shape of T, nothing more
template <typename T> bool holds(Value const& d, T const& v) { return of<T>::holds(d, v); }
template <typename T> bool fits(Value const& d) { return of<T>::fits(d); }
inline bool is_int(Value const& d) { return d.type() == Json::intValue || d.type() == Json::uintValue; }
template <typename T> requires (std::is_integral_v<T> && !std::is_same_v<T, bool>) struct of<T> {
  static Value proper() { if constexpr (std::is_unsigned_v<T>) return Value((Json::UInt64)nb_any<T>("num")); else return Value((Json::Int64)nb_any<T>("num")); }
  static bool value(Value const& d, uint64_t want, bool neg) { // branch-free comparison of the number with a mathematical integer
    if (d.type() == Json::realValue) { if (!d.isIntegral()) return false; if (neg) return d.isInt64() && (uint64_t)d.asInt64() == want; return d.isUInt64() && d.asUInt64() == want; }
    if (!is_int(d)) return false; if (neg) return d.isInt64() && (uint64_t)d.asInt64() == want; return d.isUInt64() && d.asUInt64() == want; }
  static bool holds(Value const& d, T v) { bool neg = std::is_signed_v<T> && v < 0; return value(d, (uint64_t)(int64_t)v & (std::is_signed_v<T> ? ~0ull : ~0ull), neg) ; }
  static bool fits(Value const& d) { if (!is_int(d)) return false; if constexpr (std::is_unsigned_v<T>) return d.isUInt64() && d.asUInt64() <= (uint64_t)std::numeric_limits<T>::max(); else return d.isInt64() && (d.asInt64() >= (int64_t)std::numeric_limits<T>::min()) & (d.asInt64() <= (int64_t)std::numeric_limits<T>::max()); }
};
template <> struct of<bool> { static Value proper() { return Value(nb_any<bool>("flag")); } static bool holds(Value const& d, bool v) { return d.isBool() && d.asBool() == v; } static bool fits(Value const& d) { return d.isBool(); } };
template <> struct of<double> { static Value proper() { return nb_choose(2, "int") ? big_int() : any_real(); } static bool holds(Value const& d, double v) { return d.type() == Json::realValue ? eq(d.asDouble(), v) : is_int(d) && eq(d.isInt64() ? Value(d.asInt64()).asDouble() : d.asDouble(), v); } static bool fits(Value const& d) { return d.type() == Json::realValue || is_int(d); } };
template <typename T> requires std::is_enum_v<T> struct of<T> { using U = of<std::underlying_type_t<T>>; static Value proper() { return U::proper(); } static bool holds(Value const& d, T v) { return U::holds(d, (std::underlying_type_t<T>)v); } static bool fits(Value const& d) { return U::fits(d); } };
template <> struct of<nbdl::string> { static Value proper() { return any_text(); } static bool fits(Value const& d) { return d.isString(); } static bool holds(Value const& d, nbdl::string const& v) { return d.isString() && eq(d.asString(), v); } };
// base64 by definition: value of each character, 64 for the others
inline unsigned b64v(unsigned char c) { unsigned r = 64; r = nb_ite((c >= 'A') & (c <= 'Z'), c - 'A', r); r = nb_ite((c >= 'a') & (c <= 'z'), c - 'a' + 26, r); r = nb_ite((c >= '0') & (c <= '9'), c - '0' + 52, r); r = nb_ite(c == '+', 62, r); return nb_ite(c == '/', 63, r); }
inline Value b64_doc() { std::string s = nb_string(4 * nb_choose(nb_param("groups", 2) + 1, "groups"), "b64"); for (char c : s) nb_assume((unsigned char)c < 128); return Value(s); }
inline bool b64_holds(std::string const& s, unsigned char const* p, size_t n) { // s is base64 text of the n bytes at p; unused bits of the last group are free
  if (s.size() % 4 || n > s.size() / 4 * 3 || (s.size() && n + 3 <= s.size() / 4 * 3)) return false; bool ok = true; size_t pad = s.size() / 4 * 3 - n;
  for (size_t i = 0; i < s.size(); i += 4) { unsigned g = 0; for (int j = 0; j < 4; j++) { unsigned char c = s[i + j]; if (i + j >= s.size() - pad) { ok &= c == '='; g <<= 6; } else { ok &= b64v(c) < 64; g = g << 6 | (b64v(c) & 63); } }
    for (int j = 0; j < 3; j++) { size_t k = i / 4 * 3 + j; if (k < n) ok &= p[k] == (unsigned char)(g >> (16 - 8 * j)); } }
  return ok; }
inline bool b64_fits(std::string const& s) { if (s.size() % 4) return false; bool ok = true; size_t z = s.size(); for (size_t i = 0; i < z; i++) { bool v = b64v(s[i]) < 64, p = s[i] == '='; ok &= i + 2 < z ? v : i + 2 == z ? v | (p & (s[z - 1] == '=')) : v | p; } return ok; }
template <> struct of<jx::bytes> { static Value proper() { return b64_doc(); } static bool fits(Value const& d) { return d.isString() && b64_fits(d.asString()); } static bool holds(Value const& d, jx::bytes const& v) { return d.isString() && b64_holds(d.asString(), v.data(), v.size()); } };
template <size_t N> struct of<std::array<unsigned char, N>> { static Value proper() { return b64_doc(); } static bool holds(Value const& d, std::array<unsigned char, N> const& v) { return d.isString() && b64_holds(d.asString(), v.data(), N); }
  static bool fits(Value const& d) { if (!d.isString()) return false; std::string s = d.asString(); if (s.size() != (N + 2) / 3 * 4) return false; bool ok = b64_fits(s); size_t pad = s.size() / 4 * 3 - N; for (size_t i = 0; i < s.size(); i++) ok &= (s[i] == '=') == (i >= s.size() - pad); return ok; } };
template <> struct of<nbdl::uid> { static Value proper() { std::string s = nb_string(24, "b64"); for (char c : s) nb_assume((unsigned char)c < 128); return Value(s); } static bool holds(Value const& d, nbdl::uid const& v) { return d.isString() && b64_holds(d.asString(), v.data(), 16); }
  static bool fits(Value const& d) { if (!d.isString()) return false; std::string s = d.asString(); if (s.size() != 24) return false; bool ok = true; for (size_t i = 0; i < 24; i++) ok &= i < 22 ? b64v(s[i]) < 64 : s[i] == '='; return ok; } };
template <typename T> struct of_list { using E = typename T::value_type;
  static Value proper() { Value v(Json::arrayValue); unsigned n = nb_choose(nb_param("n", 2) + 1, "n"); for (unsigned i = 0; i < n; i++) v.append(doc<E>()); return v; }
  static bool fits(Value const& d) { if (!d.isArray()) return false; bool ok = true; for (unsigned i = 0; i < d.size(); i++) ok &= ::fits<E>(d[i]); return ok; }
  static bool holds(Value const& d, T const& v) { if (!d.isArray() || d.size() != v.size()) return false; bool ok = true; unsigned i = 0; for (auto& e : v) ok &= ::holds<E>(d[i++], e); return ok; } };
template <typename T> struct of<std::vector<T>> : of_list<std::vector<T>> {};
template <typename T> struct of<std::list<T>> : of_list<std::list<T>> {};
// entities
template <typename T, typename... M> struct of_entity_base { };
template <typename M> void add(Value& v, const char* name) { v[name] = doc<M>(); }
template <typename M> bool fit1(Value const& d, const char* name) { return d.isMember(name) && fits<M>(d[name]); }
template <typename M> bool hold1(Value const& d, const char* name, M const& m) { return d.isMember(name) && holds<M>(d[name], m); }
inline void spoil(Value& v) { // a member too many, or one missing, or one under another name
  if (!odd()) return; switch (nb_choose(2, "spoil")) { case 0: v["zz"] = simple(nb_choose(2, "kind")); break; case 1: { auto names = v.getMemberNames(); if (names.empty()) return; v.removeMember(names[nb_choose(names.size(), "name")]); break; } } }
#define NB_ADD(T, m) add<decltype(T::m)>(v, #m);
#define NB_FIT(T, m) ok &= fit1<decltype(T::m)>(d, #m);
#define NB_HOLD(T, m) ok &= hold1<decltype(T::m)>(d, #m, x.m);
#define NB_FE1(F, T, a) F(T, a)
#define NB_FE2(F, T, a, b) F(T, a) F(T, b)
#define NB_FE3(F, T, a, b, c) NB_FE2(F, T, a, b) F(T, c)
#define NB_FE4(F, T, a, b, c, d_) NB_FE3(F, T, a, b, c) F(T, d_)
#define NB_FE5(F, T, a, b, c, d_, e) NB_FE4(F, T, a, b, c, d_) F(T, e)
#define NB_FE10(F, T, a, b, c, d_, e, f, g, h, i, j) NB_FE5(F, T, a, b, c, d_, e) NB_FE5(F, T, f, g, h, i, j)
#define NB_OF(N, T, ...) template <> struct of<T> { static Value proper() { Value v(Json::objectValue); NB_FE##N(NB_ADD, T, __VA_ARGS__) spoil(v); return v; } \
  static bool fits(Value const& d) { if (!d.isObject() || d.size() != N) return false; bool ok = true; NB_FE##N(NB_FIT, T, __VA_ARGS__) return ok; } \
  static bool holds(Value const& d, T const& x) { if (!d.isObject()) return false; bool ok = true; NB_FE##N(NB_HOLD, T, __VA_ARGS__) return ok; } };
NB_OF(10, jx::scal, f, i, u, c, uc, s, us, l, ul, d)
NB_OF(2, jx::ints, i, u)
NB_OF(5, jx::enums, a, b, c, d, e)
NB_OF(2, jx::text, s, t)
NB_OF(2, jx::point, x, y)
NB_OF(1, jx::one, v)
NB_OF(1, jx::onestr, v)
NB_OF(3, jx::bufs, b, a, id)
NB_OF(4, jx::nest, p, s, v, n)
// sequences: an array, or for a single element the element itself
template <> struct of<hana::tuple<>> { static Value proper() { return Value(); } static bool fits(Value const& d) { return d.isNull(); } static bool holds(Value const&, hana::tuple<> const&) { return true; } };
template <typename T> struct of<hana::tuple<T>> { static Value proper() { return of<T>::proper(); } static bool fits(Value const& d) { return ::fits<T>(d); } static bool holds(Value const& d, hana::tuple<T> const& v) { return ::holds<T>(d, v[hana::size_c<0>]); } };
template <typename A, typename B, typename... T> struct of<hana::tuple<A, B, T...>> { static constexpr unsigned N = 2 + sizeof...(T);
  static Value proper() { Value v(Json::arrayValue); v.append(doc<A>()); v.append(doc<B>()); (v.append(doc<T>()), ...); if (odd()) { if (nb_choose(2, "longer")) v.append(simple(nb_choose(3, "kind"))); else v.resize(v.size() - 1); } return v; }
  static bool fits(Value const& d) { if (!d.isArray() || d.size() != N) return false; bool ok = ::fits<A>(d[0u]) & ::fits<B>(d[1u]); unsigned i = 2; ((ok &= ::fits<T>(d[i++])), ...); return ok; }
  static bool holds(Value const& d, hana::tuple<A, B, T...> const& v) { if (!d.isArray() || d.size() != N) return false; bool ok = true; unsigned i = 0; hana::for_each(v, [&](auto const& e) { ok &= ::holds<std::decay_t<decltype(e)>>(d[i++], e); }); return ok; } };
// variants: [number of the alternative, value], or the number alone where the alternative holds nothing
template <typename D, typename... T> struct of<nbdl::detail::variant<D, T...>> { using V = nbdl::detail::variant<D, T...>;
  static Value proper() {
    unsigned k = nb_choose(sizeof...(T) + 1, "alt"), i = 0; if (k == 0) return Value((Json::Int64)0); Value v(Json::arrayValue); v.append(Value((Json::Int64)k)); ([&] { if (++i == k) v.append(doc<T>()); }(), ...);
    if (odd()) switch (nb_choose(4, "spoil")) { case 0: { auto id = nb_choose(2, "unsigned") ? Value((Json::UInt64)nb_any<uint64_t>("id")) : Value((Json::Int64)nb_any<int64_t>("id")); v[0u] = id; break; } case 1: v.append(Value()); break; case 2: v.resize(1); break; case 3: v[0u] = simple(nb_choose(K_N, "kind")); break; }
    return v; }
  static bool id_is(Value const& d, unsigned k) { return of<unsigned>::holds(d, k); }
  static bool fits(Value const& d) { if (is_int(d)) return id_is(d, 0); if (!d.isArray() || d.size() != 2 || !is_int(d[0u])) return false; unsigned i = 0; bool ok = false; ([&] { ++i; ok |= id_is(d[0u], i) & ::fits<T>(d[1u]); }(), ...); return ok; }
  static bool holds(Value const& d, V const& v) { unsigned k = v.get_type_id(); if (k == 0) return id_is(d, 0); if (!d.isArray() || d.size() != 2) return false; bool ok = id_is(d[0u], k);
    v.match([&](auto const& x) { using X = std::decay_t<decltype(x)>; if constexpr (!std::is_same_v<X, D>) ok &= ::holds<X>(d[1u], x); }); return ok; } };
NB_OF(3, jx::holds, a, o, z)
inline std::string text_of(Value const& v) { Json::StreamWriterBuilder b; b["indentation"] = ""; return Json::writeString(b, v); }
}
