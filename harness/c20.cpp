// C20: an opened websocket endpoint under every schedule of calls, completions, incoming frames and errors.
#include "ws_reader.h"
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <queue>
namespace event = nbdl::websocket::event;
static const std::string REQUEST = "GET / HTTP/1.1\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nCookies: nbdl_auth=tok;\r\n\r\n";
static const std::string RESPONSE = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n";
enum act { NONE, SEND, CLOSE_, STOP, START, DROP };
struct world {
  nbnet::conn c; std::function<void(act)> self_do; std::vector<std::string> queued, received, expected; unsigned ready = 0, terminal = 0, after = 0, inside = 0, last = NONE;
  bool stopped = false, started = false, close_req = false, close_rcv = false, write_failed = false, ended = false, closing_when_failed = false; std::error_code werr; unsigned reent = 0, kinds[3] = {0, 0, 0};
  unsigned big = 0, allowed = ~0u; unsigned long base = 0; bool silent() const { return stopped || terminal; }
};
static std::string message(world& w) { unsigned long n = w.big && w.queued.empty() ? w.big : 1; return nb_string(n, "message"); }
// what a user may do, from inside a handler or from outside
template <typename E> static void user(world& w, E& e, act a)
{
  if (a == SEND) { std::string m = message(w); w.queued.push_back(m); nbdl::endpoint_send_message(e, m); }
  else if (a == CLOSE_) { w.close_req = true; nbdl::endpoint_send_close(e); }
  else if (a == STOP) { w.stopped = true; w.c.shutdown_fails = nb_param("shut", 0) && nb_choose(2, "shutdown_fails"); bool r = e.stop(); nb_assert(r == !w.c.shutdown_fails, "stop tells whether the socket was shut down"); if (!r) nb_cover("stop-fails"); }
  else if (a == START) { if (!w.stopped) w.started = true; e.start_messaging(); }
}
template <typename E> static void inside(world& w, E& e, bool ready)
{
  nb_assert(w.inside == 0, "a handler runs inside another"); w.inside = 1; 
  if (ready) { unsigned k = nb_param("at", 4) < 4 ? nb_param("at", 4) : nb_choose(4, "at_ready"); if (k == 1) user(w, e, SEND); if (k == 2) { user(w, e, SEND); user(w, e, SEND); } if (k != 3) user(w, e, START); else if (nb_choose(2, "close_at_ready")) { user(w, e, CLOSE_); user(w, e, START); } }
  else if (w.reent) { unsigned k = nb_choose(4, "in_handler"); if (k) { w.reent--; user(w, e, act(k)); } }
  w.inside = 0;
}
static auto handlers(world& w, std::shared_ptr<int> held)
{
  auto end = [&w, held](unsigned kind, auto& self) { if (w.silent()) nb_fail("an event after the end"); if (kind == 0) nb_assert(w.close_req | w.close_rcv, "a close is reported that neither side asked for"); w.terminal++; w.kinds[kind]++; inside(w, self, false); };
  return nbdl::endpoint_handler(
    event::on_ready = [&w](auto& self, auto const&... token) { nb_assert(w.ready == 0, "ready once"); if (w.stopped) nb_fail("ready after stop"); if (w.terminal) nb_fail("ready after the end"); w.ready++; (nb_assert(token.value == "tok", "auth token"), ...); inside(w, self, true); },
    event::on_message = [&w](auto& self, auto& m) { if (w.silent()) nb_fail("a message after the end"); nb_assert(w.ready == 1, "ready first"); w.received.push_back(std::string(m.begin(), m.end())); inside(w, self, false); },
    event::on_close = [end](auto& self, auto&&...) { end(0, self); }, event::on_bad_request = [end](auto& self, auto&&...) { end(1, self); },
    event::on<std::error_code> = [end](auto& self, std::error_code const& e) { nb_assert(bool(e), "an error event without an error"); end(2, self); });
}
// what went out: whole messages in order, then at most one close frame
struct wire { unsigned whole = 0, closes = 0; bool partial = false; };
static wire look(world& w, bool cut)
{
  wire r; std::string const& o = w.c.out; unsigned long p = w.base; std::string acc; unsigned part = 0;
  for (;;) {
    if (p == o.size()) { r.partial = part != 0; break; }
    if (p + 2 > o.size()) { r.partial = true; break; }
    nb_assert(r.closes == 0, "something is sent after a close frame");
    unsigned a = (unsigned char)o[p], n = (unsigned char)o[p + 1]; unsigned h = 2; nb_assert(n < 126, "frame length"); if (p + 2 + n > o.size()) { r.partial = true; break; }
    unsigned op = a & 15;
    if (op == 8) { nb_assert(part == 0, "a close frame in the middle of a message"); nb_assert((a == 0x88) & (w.close_req | w.close_rcv), "a close frame nobody asked for"); r.closes++; }
    else if (op == 9 || op == 10) {}
    else { nb_assert(op == (part ? 0 : 2), "opcode"); nb_assert(r.whole < w.queued.size(), "a message nobody sent"); acc.append(o, p + h, n); part++; if (a & 128) { nb_assert(nb_streq(acc, w.queued[r.whole]), "messages go out whole and in order"); r.whole++; part = 0; acc.clear(); } }
    p += h + n;
  }
  if (w.close_rcv && w.allowed == ~0u) w.allowed = r.whole + (r.partial || w.c.wr ? 1 : 0); // what was under way when the peer's close came
  nb_assert(r.whole <= w.allowed, "a message is begun after the peer closed");
  if (r.partial) { nb_assert(r.closes == 0, "something is sent after a close frame"); if (!cut) nb_assert(w.c.wr != nullptr, "a message is left unfinished"); }
  return r;
}
static void fail(world& w, unsigned px) { static const std::error_code es[] = {asio::error::broken_pipe, asio::error::connection_reset}; w.werr = es[nb_choose(2, "which")]; w.write_failed = true; bool quiet = w.silent(); w.c.fail_write(px, w.werr); if (!quiet) { nb_assert(w.terminal == 1 || w.stopped, "a write error is reported"); nb_cover("write-error"); } }
template <typename Open> static void run(world& w, Open open, unsigned steps, unsigned faults)
{
  auto held = std::make_shared<int>(1);
  {
    auto ep = open(handlers(w, held)); std::weak_ptr<typename decltype(ep)::element_type> weak = ep; bool dropped = false;
    // the handshake
    unsigned cut = nb_param("handshake", 0); unsigned n = 0;
    while (!w.ready && !w.terminal) {
      if (cut && !w.stopped && nb_choose(2, "disturb")) { unsigned k = nb_choose(3, "how"); if (k == 0) user(w, *ep, STOP); else if (k == 1 && w.c.can_write()) { fail(w, 1); continue; } else { w.c.ended = true; w.ended = true; w.c.in.resize(w.c.pos); } cut = 0; if (w.c.aborted_rd) nb_fail("cancelled"); }
      if (w.c.can_write()) w.c.do_write(); else if (w.c.can_read()) w.c.do_read(); else break;
      nb_assert(++n < 100, "the handshake goes on for ever");
    }
    if (!w.ready) { nb_assert(w.stopped | (w.terminal == 1), "a handshake that fails is reported, once"); nb_cover("no-handshake"); }
    else nb_cover("ready");
    w.base = w.base ? w.base : 0;
    for (unsigned s = 0; s < steps && w.ready; s++) {
      auto alive = weak.lock(); if (!alive) break; bool dead = w.ended || w.c.shut; unsigned k = nb_choose(9, "step"); bool had = alive.use_count() > 1; typename decltype(ep)::element_type* raw = alive.get();
      if (k < 4 && dropped) nb_assume(false);
      if (dropped) alive.reset(); // only the pending operations keep it
      switch (k) {
        case 0: user(w, *raw, SEND); break;
        case 1: if (w.close_req) nb_assume(false); user(w, *raw, CLOSE_); break;
        case 2: if (w.stopped) nb_assume(false); user(w, *raw, STOP); break;
        case 3: if (w.started) { if (!nb_param("drop", 0) || dropped) nb_assume(false); alive.reset(); ep.reset(); dropped = true; nb_cover("dropped"); } else user(w, *raw, START); break;
        case 4: if (!w.c.can_write()) nb_assume(false); w.c.do_write(); break;
        case 5: if (!w.c.can_write() || !faults) nb_assume(false); faults--; fail(w, nb_choose(2, "prefix")); break;
        case 6: case 7: case 8: { if (!w.started || dead || !w.c.rd) nb_assume(false);
          if (k == 6) { std::string m = nb_string(1, "incoming"); put_frame(w.c.in, 2, true, true, 0, m); if (!w.silent()) w.expected.push_back(m); }
          else if (k == 7) { put_frame(w.c.in, 8, true, true, 0, ""); w.close_rcv = true; }
          else { unsigned q = nb_choose(3, "peer"); if (q == 0) put_frame(w.c.in, 9, true, true, 0, "p"); else if (q == 1) put_frame(w.c.in, 3, true, true, 0, ""); else { w.c.ended = w.ended = true; if (nb_choose(2, "reset")) w.c.end_error = asio::error::connection_reset; } if (q == 1) nb_cover("bad"); 
            bool quiet = w.silent(); while (w.c.can_read()) w.c.do_read(); if (q && !quiet) nb_assert((w.terminal == 1) | w.stopped, "the end of the stream is reported"); break; }
          while (w.c.can_read()) w.c.do_read(); break; }
      }
      look(w, w.write_failed | w.stopped); nb_assert(w.terminal <= 1, "at most one terminal event");
    }
    // everything that is still under way completes
    n = 0; while (w.c.can_write() || w.c.can_read()) { if (w.c.can_write()) w.c.do_write(); else w.c.do_read(); nb_assert(++n < 200, "it never comes to rest"); }
    wire r; if (w.ready) r = look(w, w.write_failed | w.stopped); nb_assert(w.terminal <= 1, "at most one terminal event");
    if (w.ready && w.started && !w.write_failed && !w.stopped && !w.terminal) {
      if (w.close_req | w.close_rcv) nb_assert(r.closes == 1, "a requested close is sent"); else nb_assert(r.whole == w.queued.size(), "every message is sent");
    }
    if (w.ready && w.close_rcv && !w.write_failed && !w.stopped) nb_assert(r.closes == 1, "a close that is received is answered");
    if (r.closes && w.close_rcv && !w.stopped) { nb_assert(w.terminal == 1, "a close that is sent and received is reported"); nb_cover("closed"); }
    if (r.closes) nb_cover("close-sent"); if (r.whole > 1) nb_cover("messages");
    nb_assert(w.received.size() <= w.expected.size(), "a message that was not received"); for (unsigned i = 0; i < w.received.size(); i++) nb_assert(nb_streq(w.received[i], w.expected[i]), "received messages are delivered in order");
    if (!w.silent()) nb_assert(w.received.size() == w.expected.size(), "every received message is delivered");
    nb_observe("terminal", w.terminal); nb_observe("whole", r.whole); nb_observe("closes", r.closes); nb_observe("received", w.received.size());
    // the end: the peer goes away
    w.c.ended = true; n = 0; if (ep && w.started && !w.silent()) w.close_rcv = false;
    while (w.c.can_write() || w.c.can_read()) { if (w.c.can_read()) w.c.do_read(); else w.c.do_write(); nb_assert(++n < 200, "it never comes to rest"); }
    if (w.started && w.ready && !w.stopped) nb_assert(w.terminal == 1, "the end is reported, once");
    ep.reset(); n = 0; while (w.c.can_write() || w.c.can_read()) { if (w.c.can_read()) w.c.do_read(); else w.c.do_write(); nb_assert(++n < 200, "it never comes to rest"); }
    nb_assert(weak.expired() & w.c.closed, "nothing holds the endpoint when it is over");
  }
  nb_assert(held.use_count() == 1, "the handlers are released"); nb_cover("end");
}
NB_ENTRY(server)
{
  world w; w.big = nb_param("big", 0); w.reent = nb_param("reent", 0); w.c.in = nb_param("bad", 0) ? "GET / HTTP/1.0\r\n\r\n" : REQUEST; w.base = RESPONSE.size();
  run(w, [&](auto h) { return nbdl::endpoint_open(nbdl::websocket::server_endpoint{tcp::socket(w.c)}, std::queue<std::string>{}, std::move(h)); }, nb_param("steps", 4), nb_param("faults", 1));
}
NB_ENTRY(client)
{
  world w; w.big = nb_param("big", 0); w.reent = nb_param("reent", 0); w.c.in = nb_param("bad", 0) ? std::string(RESPONSE.size(), 'x') : RESPONSE; tcp::socket s(w.c); 
  struct sized { static unsigned long of() { nbnet::conn c; tcp::socket t(c); nbdl::run_async(hana::make_tuple(ws::send_handshake_request(nbdl::websocket::origin_t{}, nbdl::auth_token_t{"tok"}), nbdl::catch_([](auto) {})), t); c.do_write(); return c.out.size(); } };
  w.base = sized::of();
  run(w, [&](auto h) { return nbdl::endpoint_open(nbdl::websocket::client_endpoint{s, nbdl::auth_token_t{"tok"}, {}}, std::queue<std::string>{}, std::move(h)); }, nb_param("steps", 4), nb_param("faults", 1));
}
