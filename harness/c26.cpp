#include "nb.h"
#include <boost/hana.hpp>
#include <boost/hana/ext/std/array.hpp>
#include <nbdl/detail/string_concat.hpp>
namespace hana = boost::hana; namespace d = nbdl::detail;
namespace {
std::string str(const char* n) { return nb_string(nb_choose(nb_param("len", 2) + 1, n), n); }
bool is(std::string const& r, std::string const& w) { return r.size() == w.size() && nb_memeq(r.data(), w.data(), w.size()); }
struct txt { char buf[8]; }; // a zero-terminated text without zero bytes inside
std::string zstr(txt& t, const char* n) { std::string s = str(n); for (char c : s) nb_assume(c != 0); for (unsigned i = 0; i <= s.size(); i++) t.buf[i] = s.c_str()[i]; return s; }
constexpr hana::string<'k', ':'> k_s; constexpr hana::string<> e_s;
}
NB_ENTRY(concat) {
  std::string a = str("a"), b = str("b"), c = str("c"); std::string want = a + "k:" + b + c;
  std::string r = d::string_concat(hana::make_tuple(a, k_s, b, e_s, c)); nb_observe_mem("r", r.data(), r.size()); nb_assert(is(r, want), "the concatenation is the pieces in order");
  std::array<std::string, 3> arr{{c, a, b}}; nb_assert(is(d::string_concat(arr), c + a + b), "an array of strings"); txt t; std::string z = zstr(t, "z"); char const* zp = t.buf; nb_assert(is(d::string_concat(hana::make_tuple(b, zp, k_s)), b + z + "k:"), "a zero-terminated text");
  nb_assert(is(d::string_concat(hana::make_tuple(a)), a) && is(d::string_concat(hana::make_tuple()), ""), "one piece, no piece");
  constexpr hana::string<'n', '\0', 'l'> n_s; nb_assert(is(d::string_concat(hana::make_tuple(a, n_s, b)), a + std::string("n\0l", 3) + b), "a compile-time text that contains a zero character");
  std::array<std::string_view, 2> vs{{b, c}}; nb_assert(is(d::string_concat.with_views(vs), b + c), "string views"); nb_cover("concat");
}
