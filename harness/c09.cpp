#include "nb.h"
#include <nbdl/websocket/detail/get_auth_token.hpp>
using nbdl::websocket::detail::get_auth_token;
namespace {
const char NAME[] = "nbdl_auth=";
bool is_name(const char* p) { bool ok = true; for (int i = 0; i < 10; i++) ok = ok & (p[i] == NAME[i]); return ok; }
// the header value lives in an exactly sized buffer followed by bytes that would continue it
void check(std::string const& s) {
  auto tok = get_auth_token(s); std::string const& got = tok.value;
  unsigned long n = s.size(), i = 0; long at = -1;
  while (i < n) {
    if (n - i >= 10 && is_name(s.data() + i)) { at = i + 10; break; }
    while (i < n && s[i] != ';') i++;
    while (i < n && (bool)((s[i] == ';') | (s[i] == ' ') | (s[i] == '\t'))) i++;
  }
  nb_observe("len", got.size());
  if (at < 0) { nb_assert(got.empty(), "no cookie of that name: empty token"); nb_cover("absent"); return; }
  unsigned long e = at; while (e < n && s[e] != ';') e++;
  nb_assert(got.size() == e - at, "the token has the length of the cookie's value");
  nb_assert(nb_memeq(got.data(), s.data() + at, e - at), "the token is the cookie's value");
  nb_cover(got.empty() ? "empty-value" : "value");
}
}
// every string of length n (first byte not a blank)
NB_ENTRY(any) {
  unsigned long n = nb_param("n", 4); std::string s = nb_string(n, "cookies"); if (n) nb_assume((s[0] != ' ') & (s[0] != '\t') & (s[0] != ';')); check(s);
}
// a list built from pieces: P arbitrary bytes, the name with one arbitrary byte at position 'hole', then Q arbitrary bytes, and so on
NB_ENTRY(pieces) {
  unsigned long p = nb_param("p", 2), q = nb_param("q", 2), r = nb_param("r", 2), twice = nb_param("twice", 0);
  std::string s = nb_string(p, "prefix"); if (p) nb_assume((s[0] != ' ') & (s[0] != '\t') & (s[0] != ';'));
  unsigned long hole = nb_choose(11, "hole"); std::string nm = NAME; if (hole < 10) nm[hole] = nb_any<char>("byte");
  if (!p && hole == 0) nb_assume((nm[0] != ' ') & (nm[0] != '\t') & (nm[0] != ';'));
  s += nm; s += nb_string(q, "mid"); if (twice) { s += "nbdl_auth="; s += nb_string(r, "tail"); }
  s.shrink_to_fit(); check(s);
}
