// C07: the two sides of the websocket handshake.
#include <nb.h>
#include <boost/asio.hpp>
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/parse_handshake_request.hpp>
#include <nbdl/websocket/detail/send_handshake_response.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/detail/send_handshake_request.hpp>
#include <nbdl/websocket/detail/parse_handshake_response.hpp>
#include <string>
namespace asio = boost::asio; namespace hana = boost::hana; using asio::ip::tcp;
namespace ws = nbdl::websocket::detail; namespace s1 = nbdl::detail::beast_sha1; using nbdl::auth_token_t;
static const std::string GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
// base64(SHA-1(...)) by the functions that C08 and C01 are about
static std::string accept_of(std::string const& key)
{ std::string m = key + GUID; std::array<unsigned char, 20> d{}; s1::sha1_context c{}; s1::init(c); s1::update(c, m.data(), m.size()); s1::finish(c, d.data()); return nbdl::util::base64_encode(d); }
static std::string response_of(std::string const& token) { return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + token + "\r\n\r\n"; }
struct outcome { unsigned ok = 0, refused = 0, errors = 0; std::error_code error; std::string token; bool same_socket = false; };
template <typename Stage, typename... Args> static outcome drive(nbnet::conn& c, Stage stage, bool faults, Args&&... args)
{
  outcome o; tcp::socket s(c);
  nbdl::run_async(hana::make_tuple(stage,
    [&](auto& sock, auto const&... more) { o.ok++; o.same_socket = &sock == &s; ((o.token = more.value), ...); },
    nbdl::catch_([&](std::error_code e) { o.errors++; o.error = e; }),
    nbdl::catch_([&](hana::basic_type<nbdl::websocket::event::bad_request_t>) { o.refused++; })), s, std::forward<Args>(args)...);
  unsigned n = 0;
  for (;;) {
    if (!c.can_write() && !c.can_read()) break;
    nb_assert((o.ok | o.refused | o.errors) == 0, "it goes on after the outcome"); nb_assert(++n < 200, "it goes on for ever");
    if (c.can_write()) { if (faults) { unsigned long t = nbnet::conn::total(c.wr), px = nb_choose(3, "prefix"); px = px == 2 ? t : px * 5; c.end_error = nb_choose(2, "how") ? std::error_code(asio::error::broken_pipe) : std::error_code(asio::error::connection_reset); c.fail_write(px, c.end_error); nb_cover("write-error"); } else c.do_write(); }
    else c.do_read();
  }
  nb_assert(o.ok + o.refused + o.errors <= 1, "an outcome is reported once");
  if (o.errors) nb_assert(o.error == c.end_error, "the error of the stream is the one reported");
  if (o.ok) nb_assert(o.same_socket, "the socket is handed on");
  nb_observe("outcome", o.ok + 2 * o.refused + 4 * o.errors); return o;
}
// the server's answer for every key; the token of the request is handed on
static void answer(std::string const& key, std::string const& cookies, std::string const& token, bool faults)
{
  nbnet::conn c; auto o = drive(c, ws::send_handshake_response(), faults, ws::handshake_info_t{key, cookies});
  if (faults) { nb_assert((o.ok == 0) & (o.errors == 1), "a failed write is an error, once"); nb_cover("end"); return; }
  std::string expect = response_of(accept_of(key));
  nb_assert(o.ok == 1, "the handshake goes on after the response is written"); nb_assert(nb_streq(c.out, expect), "the response of RFC 6455 for this key");
  nb_assert(nb_streq(o.token, token), "the auth token of the cookies is handed on");
  nb_observe_mem("out", c.out.data(), c.out.size()); nb_cover("end");
}
NB_ENTRY(response)
{
  unsigned long n = nb_param("from", 0) + nb_choose(nb_param("count", 1), "length"); std::string key = nb_string(n, "key");
  std::string t = nb_string(nb_param("token", 3), "token"); bool semi = false; for (char ch : t) semi = semi | (ch == ';'); nb_assume(!semi);
  unsigned k = nb_choose(4, "cookies"); bool f = nb_param("faults", 0);
  answer(key, k == 0 ? "nbdl_auth=" + t : k == 1 ? "a=b; nbdl_auth=" + t + "; c=d" : k == 2 ? std::string() : std::string("other=1; x_nbdl_auth=2"), k < 2 ? t : std::string(), f);
}
NB_ENTRY(known_keys) // fixed keys with tokens computed elsewhere
{
  static const char* const keys[][2] = {{"dGhlIHNhbXBsZSBub25jZQ==", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="}, {"x3JJHMbDL1EzLkh9GBhXDw==", "HSmrc0sMlYUkAGmm5OPpG2HaGWk="}};
  unsigned k = nb_choose(2, "key"); nbnet::conn c; auto o = drive(c, ws::send_handshake_response(), false, ws::handshake_info_t{keys[k][0], ""});
  nb_assert(o.ok == 1, "answered"); nb_assert(c.out == response_of(keys[k][1]), "the accept token of a known key"); nb_cover("end");
}
// the client's request
static void clean(std::string const& v, bool token) { bool bad = false; for (char ch : v) bad = bad | (ch == '\r') | (ch == '\n') | ((ch == ';') & token); nb_assume(!bad); if (v.size()) nb_assume(v[0] != ' '); }
static bool is_header(std::string const& l, const char* name, std::string& value)
{ unsigned long n = strlen(name); if (l.size() <= n || l[n] != ':') return false; for (unsigned long i = 0; i < n; i++) if (((unsigned char)l[i] | 32) != ((unsigned char)name[i] | 32)) return false; n++; while (n < l.size() && l[n] == ' ') n++; value = l.substr(n); return true; }
NB_ENTRY(request)
{
  std::string origin = nb_string(nb_choose(nb_param("origin", 4), "origin_length"), "origin"), token = nb_string(nb_choose(nb_param("token", 4), "token_length"), "token"); clean(origin, false); clean(token, true); bool f = nb_param("faults", 0);
  nbnet::conn c; auto o = drive(c, ws::send_handshake_request(nbdl::websocket::origin_t{origin}, auth_token_t{token}), f);
  if (f) { nb_assert((o.ok == 0) & (o.errors == 1), "a failed write is an error, once"); nb_cover("end"); return; }
  nb_assert(o.ok == 1, "the handshake goes on after the request is written");
  std::string const& r = c.out; unsigned long p = 0; unsigned line = 0, seen = 0; bool ended = false;
  while (!ended) {
    unsigned long e = p; while (e + 1 < r.size() && !((r[e] == '\r') & (r[e + 1] == '\n'))) e++;
    nb_assert(e + 1 < r.size(), "the request ends with an empty line"); std::string l = r.substr(p, e - p), v; p = e + 2;
    if (l.empty()) { ended = true; break; }
    nb_assert(l.size() <= 254, "a line the server is able to take");
    if (line++ == 0) { nb_assert(l == "GET / HTTP/1.1", "request line"); continue; }
    if (is_header(l, "Origin", v)) { seen |= 1; nb_assert(nb_streq(v, origin), "the origin, verbatim"); }
    else if (is_header(l, "Upgrade", v)) { seen |= 2; nb_assert(v == "websocket", "Upgrade"); }
    else if (is_header(l, "Connection", v)) { seen |= 4; nb_assert(v == "Upgrade", "Connection"); }
    else if (is_header(l, "Sec-WebSocket-Key", v)) { seen |= 8; nb_assert(v == "dGhlIHNhbXBsZSBub25jZQ==", "the key whose token the client waits for"); }
    else if (is_header(l, "Sec-WebSocket-Version", v)) { seen |= 16; nb_assert(v == "13", "version"); }
    else if (is_header(l, "Cookies", v)) { seen |= 32; std::string want = "nbdl_auth=" + token; nb_assert(v.size() >= want.size() && nb_memeq(v.data(), want.data(), want.size()) && (v.size() == want.size() || v[want.size()] == ';'), "the auth token, verbatim"); }
  }
  nb_assert(p == r.size(), "nothing follows the request"); nb_assert(seen == 63, "every header a websocket request needs"); nb_observe_mem("out", r.data(), r.size()); nb_cover("end");
}
// client and server understand each other
NB_ENTRY(both)
{
  std::string origin = nb_string(nb_choose(nb_param("origin", 3), "origin_length"), "origin"), token = nb_string(nb_choose(nb_param("token", 6), "token_length"), "token"); clean(origin, false); clean(token, true);
  nbnet::conn c; auto o = drive(c, ws::send_handshake_request(nbdl::websocket::origin_t{origin}, auth_token_t{token}), false); nb_assert(o.ok == 1, "request written");
  nbnet::conn d; d.in = c.out; auto q = drive(d, hana::make_tuple(ws::parse_handshake_request(), ws::send_handshake_response()), false);
  nb_assert(q.ok == 1, "the server accepts the client's request"); nb_assert(nb_streq(q.token, token), "and takes its auth token");
  nbnet::conn e; e.in = d.out; auto r = drive(e, ws::parse_handshake_response(), false);
  nb_assert(r.ok == 1, "the client accepts the server's response"); nb_assert(e.pos == e.in.size(), "and reads no further than its end"); nb_cover("end");
}
// responses with any bytes in the status line and the accept token
NB_ENTRY(foreign_response)
{
  std::string good = response_of("s3pPLMBiTxaQ9kYGzzhZRbK+xOo="), r = good; unsigned long at = nb_choose(3, "where") ; unsigned long tok = good.find("s3pP");
  bool part = nb_param("all", 0); if (at == 1 || part) { std::string v = nb_string(32, "status"); r.replace(0, 32, v); } if (at == 2 || part) { std::string v = nb_string(28, "accept"); r.replace(tok, 28, v); }
  bool same = nb_streq(r, good); nbnet::conn c; c.in = r + "more"; auto o = drive(c, ws::parse_handshake_response(), false);
  nb_assert(o.ok == (same ? 1 : 0), "accepted exactly when it is the response to its key"); nb_assert(o.refused == (same ? 0 : 1), "refused otherwise"); nb_cover(same ? "accepted" : "refused"); if (same) nb_assert(c.pos == good.size(), "reads no further than its end"); nb_cover("end");
}
NB_ENTRY(cut_response)
{
  std::string good = response_of("s3pPLMBiTxaQ9kYGzzhZRbK+xOo="); nbnet::conn c; c.in = good.substr(0, nb_choose(good.size(), "until")); c.ended = true; if (nb_choose(2, "how")) c.end_error = asio::error::connection_reset;
  auto o = drive(c, ws::parse_handshake_response(), false); nb_assert((o.errors == 1) & ((o.ok | o.refused) == 0), "a response cut short is an error, once"); nb_cover("end");
}
