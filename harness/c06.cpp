// C06: what the server side takes from a handshake request.
#include <nb.h>
#include <boost/asio.hpp>
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/parse_handshake_request.hpp>
#include <string>
namespace asio = boost::asio; namespace hana = boost::hana; using asio::ip::tcp;
namespace ws = nbdl::websocket::detail;
static const std::string LINE = "GET / HTTP/1.1\r\n";
struct info { bool has; std::string value; };
struct outcome { unsigned accepted = 0, refused = 0, errors = 0; std::error_code error; std::string key, cookies; bool same_socket = false; };
static unsigned long one_by_one(nbnet::conn&, unsigned long) { return 1; }
static unsigned long cuts_left;
static unsigned long any_cut(nbnet::conn&, unsigned long most) { if (!cuts_left || most < 2) return most; cuts_left--; return 1 + nb_choose(most, "cut"); } // a read returns any number of bytes, up to so many times
static outcome receive(std::string const& tape, unsigned chunks, bool truncated)
{
  outcome o; nbnet::conn c; c.in = tape; if (chunks == 1) c.piece = one_by_one; else if (chunks > 1) { c.piece = any_cut; cuts_left = chunks - 1; }
  if (truncated) { c.ended = true; if (nb_choose(2, "how")) c.end_error = asio::error::connection_reset; }
  tcp::socket s(c); bool bad = false;
  nbdl::run_async(hana::make_tuple(ws::parse_handshake_request(),
    [&](auto& sock, auto const& h) { o.accepted++; o.key = h.websocket_key; o.cookies = h.cookies; o.same_socket = &sock == &s; },
    nbdl::catch_([&](std::error_code e) { o.errors++; o.error = e; }),
    nbdl::catch_([&](hana::basic_type<nbdl::websocket::event::bad_request_t>) { o.refused++; })), s);
  unsigned n = 0; while (c.can_read()) { nb_assert((o.accepted | o.refused | o.errors) == 0, "it goes on reading after the outcome"); c.do_read(); nb_assert(++n < 4000, "it goes on for ever"); }
  nb_assert(o.accepted + o.refused + o.errors <= 1, "an outcome is reported once");
  if (o.errors) nb_assert(o.error == c.end_error, "the error of the stream is the one reported");
  if (o.accepted) nb_assert(o.same_socket, "the socket is handed on");
  nb_observe("outcome", o.accepted + 2 * o.refused + 4 * o.errors); nb_observe_mem("key", o.key.data(), o.key.size() < 40 ? o.key.size() : 40); nb_observe_mem("cookies", o.cookies.data(), o.cookies.size() < 40 ? o.cookies.size() : 40);
  return o;
}
static unsigned long lower(unsigned long c) { return nb_ite((c >= 'A') & (c <= 'Z'), c + 32, c); }
static bool named(std::string const& l, unsigned long colon, char const* name, unsigned long n)
{ if (colon != n) return false; bool r = true; for (unsigned long i = 0; i < n; i++) r = r & (lower((unsigned char)l[i]) == (unsigned char)name[i]); return r; }
static void apply(std::string const& l, std::string& key, std::string& cookies)
{
  unsigned long p = 0; while (p < l.size() && l[p] != ':') p++;
  if (p == l.size()) { nb_cover("no-colon"); return; }
  bool k = named(l, p, "sec-websocket-key", 17), c = named(l, p, "cookies", 7); if (!k && !c) { nb_cover("other"); return; }
  unsigned long v = p + 1; while (v < l.size() && l[v] == ' ') v++;
  (k ? key : cookies) = l.substr(v); nb_cover(k ? "key" : "cookies");
}
static void no_line_end(std::string const& l) { bool bad = false; for (unsigned long i = 0; i + 1 < l.size(); i++) bad = bad | ((l[i] == '\r') & (l[i + 1] == '\n')); nb_assume(!bad); }
static void matches(outcome const& o, std::string const& key, std::string const& cookies)
{
  nb_assert(o.accepted == 1, "a request with the expected first line is accepted");
  nb_assert(nb_streq(o.key, key), "the websocket key is the value of its header"); nb_assert(nb_streq(o.cookies, cookies), "the cookies are the value of their header"); nb_cover("end");
}
// one line of any bytes
NB_ENTRY(any_line)
{
  std::string l = nb_string(nb_param("from", 1) + nb_choose(nb_param("count", 1), "length"), "line"); no_line_end(l);
  std::string key, cookies; apply(l, key, cookies); std::string tape = LINE + l + "\r\n";
  if (nb_choose(2, "followed")) { for (std::string n : {"Cookies: z", "Sec-WebSocket-Key: y"}) { apply(n, key, cookies); tape += n + "\r\n"; } nb_cover("followed"); }
  matches(receive(tape + "\r\n", 0, false), key, cookies);
}
// header names in any case, values of any bytes
static std::string header(unsigned value)
{
  static const char* const names[] = {"Sec-WebSocket-Key", "Cookies", "Host", "Cookie", "Sec-WebSocket-Keys", "xCookies", ""};
  unsigned k = nb_choose(nb_param("names", 4), "name"); std::string l = names[k];
  for (auto& ch : l) { unsigned long x = (unsigned char)ch; bool letter = ((x | 32) >= 'a') & ((x | 32) <= 'z'); if (letter) { unsigned long flip = nb_bits(1, "case"); ch = (char)(x ^ (flip << 5)); } }
  unsigned form = nb_choose(4, "form"); if (form == 0) return l.empty() ? "x" : l; // without a colon
  l += ':'; if (form >= 2) l += form == 2 ? " " : "   "; std::string v = nb_string(nb_choose(value, "length"), "value"); no_line_end(v); l += v; return l;
}
NB_ENTRY(headers)
{
  std::string tape = LINE, key, cookies; unsigned n = 1 + nb_choose(nb_param("lines", 2), "lines"), chunks = nb_param("chunks", 0);
  for (unsigned i = 0; i < n; i++) { std::string l = header(nb_param("value", 3)); apply(l, key, cookies); tape += l; tape += "\r\n"; }
  matches(receive(tape + "\r\n", chunks, false), key, cookies);
}
// lines of several lengths up to the longest, read in pieces
NB_ENTRY(pieces)
{
  std::string k = nb_string(nb_param("key", 24), "key"), c = nb_string(nb_param("cookies", 30), "cookies"); no_line_end(k); no_line_end(c); if (k.size()) nb_assume(k[0] != ' '); if (c.size()) nb_assume(c[0] != ' ');
  std::string tape = LINE + "Host: nbdl\r\n" + "SEC-websocket-KEY: " + k + "\r\nConnection: Upgrade\r\ncookies:" + c + "\r\n\r\n";
  matches(receive(tape, nb_param("chunks", 1), false), k, c);
}
// the first line
NB_ENTRY(first_line)
{
  std::string l = nb_string(16, "line"); bool ok = nb_memeq(l.data(), LINE.data(), 16);
  auto o = receive(l + "Cookies: a\r\n\r\n", 0, false);
  nb_assert(o.accepted == (ok ? 1 : 0), "exactly the expected first line is accepted"); nb_assert(o.refused == (ok ? 0 : 1), "any other first line is refused"); if (ok) { nb_assert(o.cookies == "a", "cookies"); nb_cover("accepted"); } else nb_cover("refused"); nb_cover("end");
}
// the stream ends anywhere
NB_ENTRY(truncated)
{
  std::string v = nb_string(3, "value"); no_line_end(v); std::string tape = LINE + "Host: nbdl\r\nCookies: " + v + "\r\nSec-WebSocket-Key: abc\r\n\r\n";
  unsigned long n = nb_choose(tape.size(), "until"); auto o = receive(tape.substr(0, n), nb_param("chunks", 0), true);
  nb_assert((o.errors == 1) & ((o.accepted | o.refused) == 0), "a request cut short is an error, once"); nb_cover("end");
}
