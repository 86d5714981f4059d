// C10: the session cookie the application server takes from a Cookie header.
#include "nb.h"
#include <nbdl/app/detail/cookie_parser.hpp>
namespace {
const char NAME[] = "NBDL_SESS=";
bool is_name(const char* p) { bool ok = true; for (int i = 0; i < 10; i++) ok = ok & (p[i] == NAME[i]); return ok; }
bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
void check(std::string const& s) { // a list of cookies separated by ';', each of them after any blanks
  std::string_view got = nbdl::app::detail::get_session_cookie(std::string_view(s.data(), s.size())); unsigned long n = s.size(), i = 0; long at = -1;
  while (i < n) {
    while (i < n && blank(s[i])) i++;
    if (n - i >= 10 && is_name(s.data() + i)) { at = i + 10; break; }
    while (i < n && s[i] != ';') i++;
    i++;
  }
  nb_observe("len", got.size());
  if (at < 0) { nb_assert(got.empty(), "no session cookie: nothing"); nb_cover("absent"); return; }
  unsigned long e = at; while (e < n && s[e] != ';') e++;
  nb_assert(got.size() == e - at, "the session has the length of the cookie's value"); if (e - at) nb_assert(got.data() == s.data() + at, "the session is the cookie's value"); nb_cover(got.empty() ? "empty-value" : "value");
}
}
NB_ENTRY(any) { std::string s = nb_string(nb_param("n", 4), "cookies"); s.shrink_to_fit(); check(s); }
// built from pieces: any bytes, the name with any one byte replaced, any bytes, and so on
NB_ENTRY(pieces) {
  unsigned long p = nb_param("p", 2), q = nb_param("q", 2), r = nb_param("r", 2), twice = nb_param("twice", 0);
  std::string s = nb_string(p, "prefix"); unsigned long hole = nb_choose(11, "hole"); std::string nm = NAME; if (hole < 10) nm[hole] = nb_any<char>("byte");
  s += nm; s += nb_string(q, "mid"); if (twice) { s += NAME; s += nb_string(r, "tail"); }
  s.shrink_to_fit(); check(s);
}
