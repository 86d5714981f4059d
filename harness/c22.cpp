#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <limits>
namespace hana = boost::hana; using namespace hana::literals; namespace w = nbdl::webui;
namespace rx {
struct num { std::size_t id; }; struct text { nbdl::string s; }; struct both { std::size_t id; nbdl::string s; }; struct none {}; struct small { unsigned char a; unsigned short b; }; struct sgn { int i; signed char c; }; struct mid { nbdl::string a; unsigned b; nbdl::string c; }; struct wide { long v; }; struct nine { nbdl::string a, b, c, d, e, f, g, h, i; };
}
namespace nbdl { NBDL_ENTITY(rx::num, id); NBDL_ENTITY(rx::text, s); NBDL_ENTITY(rx::both, id, s); NBDL_EMPTY(rx::none); NBDL_ENTITY(rx::small, a, b); NBDL_ENTITY(rx::sgn, i, c); NBDL_ENTITY(rx::mid, a, b, c); NBDL_ENTITY(rx::wide, v); NBDL_ENTITY(rx::nine, a, b, c, d, e, f, g, h, i); }
namespace {
using namespace rx;
constexpr auto map = w::make_route_map(w::route_pair<>(""_s), w::route_pair<num>("num"_s), w::route_pair<text>("t"_s), w::route_pair<both>("tt"_s), w::route_pair<none>("no-ne"_s), w::route_pair<small>("s"_s), w::route_pair<sgn>("sgn"_s), w::route_pair<mid>("mid"_s), w::route_pair<wide>("num2"_s), w::route_pair<nine>("nine"_s));
using map_t = std::decay_t<decltype(map)>; using V = map_t::variant;
template <typename T> T const* as(V const& v) { return std::get_if<T>(&v.value_); }
using root_t = decltype(""_s);
// a parameter: a number above zero, or text that is neither empty nor holds a slash
// a number: some of its low bits are any, the others those of one of a few numbers up to the largest
template <typename T> T pos(const char* n) {
  static const unsigned long high[] = {0, 1000, 65536, 1234567, 0x7fffffff, 0xffffffff, 99999999999, 1000000000000000000, 0x7fffffffffffffff, 10000000000000000000u, 0xffffffffffffffff}; unsigned k = nb_param("high", 11); while (k > 1 && high[k - 1] > (unsigned long)std::numeric_limits<T>::max()) --k;
  unsigned bits = std::min<unsigned>(nb_param("bits", 8), std::numeric_limits<T>::digits); unsigned long low = nb_bits(bits, n), h = high[k > 1 ? nb_choose(k, n) : 0] >> bits << bits; T v = (T)(h | low); nb_assume(v > 0); return v;
}
nbdl::string txt(const char* n) { std::string s = nb_string(nb_choose(nb_param("len", 2), n) + 1, n); for (char c : s) nb_assume(c != '/'); return nbdl::string(s); }
bool eqs(std::string const& a, std::string const& b) { return a.size() == b.size() && nb_memeq(a.data(), b.data(), a.size()); }
bool same(num const& a, num const& b) { return a.id == b.id; } bool same(text const& a, text const& b) { return eqs(a.s, b.s); } bool same(both const& a, both const& b) { return (a.id == b.id) & eqs(a.s, b.s); } bool same(none, none) { return true; } bool same(root_t, root_t) { return true; }
bool same(small const& a, small const& b) { return (a.a == b.a) & (a.b == b.b); } bool same(sgn const& a, sgn const& b) { return (a.i == b.i) & (a.c == b.c); } bool same(mid const& a, mid const& b) { return (a.b == b.b) & eqs(a.a, b.a) & eqs(a.c, b.c); } bool same(nine const& a, nine const& b) { return eqs(a.a + a.b + a.c + a.d + a.e + a.f + a.g + a.h + a.i, b.a + b.b + b.c + b.d + b.e + b.f + b.g + b.h + b.i); } bool same(wide const& a, wide const& b) { return a.v == b.v; }
template <typename T> void back(T const& t, const char* prefix) {
  V v = map.to_variant(t); auto const* in = as<T>(v); nb_assert(in && same(*in, t), "a route is held as the variant of its type"); nbdl::string url = map.to_string(t); nb_observe_mem("url", url.data(), url.size()); size_t n = __builtin_strlen(prefix); nb_assert(url.size() >= n && nb_memeq(url.data(), prefix, n), "the address begins with the name of the route");
  V r = map.from_string(url); auto const* p = as<T>(r); nb_assert(p != nullptr, "the address of a route leads back to a route of the same name"); nb_assert(same(*p, t), "the address of a route leads back to the same parameters"); nb_cover("back");
}
// what an address must look like to be the address of r, apart from leading zeros of numbers and a slash at the end
std::string tidy(std::string s, unsigned numbers) { // numbers: which parameters are numbers
  if (s.size() > 1 && s.back() == '/') s.pop_back(); std::string o; unsigned part = 0; size_t i = 0;
  while (i < s.size()) { o += '/'; ++i; if (numbers >> part & 1) while (i + 1 < s.size() && s[i] == '0' && s[i + 1] != '/') ++i; while (i < s.size() && s[i] != '/') o += s[i++]; ++part; } return o;
}
template <typename T> bool meant(V const& v, std::string const& s, unsigned numbers) { auto const* p = as<T>(v); if (!p) return true; nb_cover("accepted"); return eqs(map.to_string(*p), tidy(s, numbers)); }
bool all_meant(V const& v, std::string const& s) { return meant<num>(v, s, 2) && meant<text>(v, s, 0) && meant<both>(v, s, 2) && meant<none>(v, s, 0) && meant<small>(v, s, 6) && meant<sgn>(v, s, 6) && meant<mid>(v, s, 4) && meant<wide>(v, s, 2) && meant<nine>(v, s, 0) && meant<root_t>(v, s, 0); }
void read(std::string const& s) { nbdl::string t(s); V v = map.from_string(t); nb_observe("kind", v.value_.index()); if (as<w::route_not_found>(v)) nb_cover("not-found"); nb_assert(all_meant(v, s), "a string leads to a route only if it is the address of that route"); }
}
NB_ENTRY(roots) { back(""_s, "/"); back(none{}, "/no-ne"); nb_assert(map.from_string("/").value_.index() == 1, "the address of the root route"); }
NB_ENTRY(numbers) { back(num{pos<std::size_t>("id")}, "/num/"); }
NB_ENTRY(number_long) { back(wide{pos<long>("v")}, "/num2/"); }
NB_ENTRY(numbers_small) { back(small{pos<unsigned char>("a"), pos<unsigned short>("b")}, "/s/"); }
NB_ENTRY(numbers_signed) { back(sgn{pos<int>("i"), pos<signed char>("c")}, "/sgn/"); }
NB_ENTRY(most) { auto t = [] { std::string s = nb_string(1, "t"); nb_assume(s[0] != '/'); return nbdl::string(s); }; back(nine{t(), t(), t(), t(), t(), t(), t(), t(), t()}, "/nine/"); }
NB_ENTRY(texts) { back(text{txt("s")}, "/t/"); }
NB_ENTRY(several) { back(both{pos<std::size_t>("id"), txt("s")}, "/tt/"); }
NB_ENTRY(between) { back(mid{txt("a"), pos<unsigned>("b"), txt("c")}, "/mid/"); }
NB_ENTRY(any_string) { read(nb_string(nb_choose(nb_param("n", 4) + 1, "n"), "s")); }
NB_ENTRY(after_name) { static const char* const names[] = {"/num/", "/t/", "/tt/", "/no-ne", "/s/", "/sgn/", "/mid/", "/num2", "/mid/x/", "/mid/x/7/", "/tt/1/", "/t/a/b/c/d/e/f/g/h", "/nine/a/b/c/d/e/f/g/h"}; read(names[nb_choose(13, "name")] + nb_string(nb_choose(nb_param("n", 3) + 1, "n"), "s")); }
// digits only, so many that the number may not fit
NB_ENTRY(big_numbers) {
  static const char* const names[] = {"/num/", "/num2/", "/s/", "/s/1/", "/sgn/", "/sgn/1/", "/mid/x/"}; static const char* const most[] = {"18446744073709551615", "9223372036854775807", "255", "65535", "2147483647", "127", "4294967295"}; unsigned k = nb_choose(7, "name");
  std::string d = most[k]; unsigned how = nb_choose(4, "how"), n = nb_param("digits", 4); if (nb_choose(2, "longer")) d += '0'; if (how == 1) d.assign(d.size(), '9'); if (how == 2) d.assign(d.size(), '0'); // digits that are any: the last, the last after nines, the first, or the second and next
  for (unsigned x = 0; x < n; x++) { unsigned at = how < 2 ? d.size() - 1 - x : how == 2 ? x : 1 + x; if (at < d.size()) { d[at] = nb_any<char>("digit"); nb_assume((d[at] >= '0') & (d[at] <= '9')); } } nb_assume(d[0] != '0');
  std::string rest = k == 2 || k == 4 ? "/1" : k == 6 ? "/y" : ""; V v = map.from_string(nbdl::string(names[k] + d + rest)); unsigned __int128 val = 0; for (char c : d) val = val * 10 + (unsigned)(c - '0'); static const unsigned long max[] = {~0ul, ~0ul >> 1, 255, 65535, 0x7fffffff, 127, 0xffffffff}; bool found = !as<w::route_not_found>(v); nb_observe("found", found);
  unsigned long got = 0; if (auto* p = as<num>(v)) got = p->id; if (auto* p = as<wide>(v)) got = p->v; if (auto* p = as<small>(v)) got = k == 2 ? p->a : p->b; if (auto* p = as<sgn>(v)) got = k == 4 ? p->i : p->c; if (auto* p = as<mid>(v)) got = p->b;
  nb_assert(!found || (val <= max[k] && (unsigned long)val == got), "a number that does not fit is no parameter"); nb_assert(found || !(val <= max[k]), "a number that fits is a parameter"); nb_cover(found ? "fits" : "does-not-fit");
}
NB_ENTRY(set) {
  constexpr auto go = w::make_set_route(map); int n = 0; both b{pos<std::size_t>("id"), txt("s")}; auto sent = [&](auto const& m, auto t) { using T = decltype(t); ++n; nb_assert(hana::equal(nbdl::message::get_path(m), w::nav_route_path), "the route is set by an update of the navigation route"); static_assert(nbdl::message::is_update<decltype(m)>); nb_assert(as<T>(nbdl::message::get_payload(m)) != nullptr, "with a route of the type of the name"); };
  go(""_s)([&](auto const& m) { sent(m, ""_s); }); go("no-ne"_s)([&](auto const& m) { sent(m, none{}); }); go("tt"_s)([&](auto const& m) { sent(m, both{}); nb_assert(same(*as<both>(nbdl::message::get_payload(m)), b), "and its parameters"); }, b); nb_assert(n == 3, "each is sent once"); nb_cover("set");
}
