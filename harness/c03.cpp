// C03: a message handed to the websocket sender goes out as RFC 6455 frames that carry exactly that message.
#include <nb.h>
#include <boost/asio.hpp>
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/message_sender.hpp>
#include <string>
#include <vector>
namespace asio = boost::asio; namespace hana = boost::hana; using asio::ip::tcp;
namespace ws = nbdl::websocket::detail;

// reads the frames of one message off `o` from position p: opcode of the first, its payload
struct parsed { bool ok; unsigned long end; std::string payload; unsigned frames; };
static parsed frames(std::string const& o, unsigned long p, unsigned opcode, unsigned long most)
{
  parsed r{false, p, {}, 0};
  for (;;) {
    if (p + 2 > o.size()) return r;
    unsigned a = (unsigned char)o[p], b = (unsigned char)o[p + 1]; p += 2;
    unsigned long n = b & 127; unsigned ext = n == 126 ? 2 : n == 127 ? 8 : 0;
    if (ext) { if (p + ext > o.size()) return r; n = 0; for (unsigned i = 0; i < ext; i++) n = n << 8 | (unsigned char)o[p + i]; p += ext; nb_assert((ext == 2) ? n >= 126 : n >= 65536, "a length is written in the shortest form"); }
    nb_assert((a & 0x70) == 0, "reserved bits are clear"); nb_assert((b & 128) == 0, "a frame announces a mask it does not have");
    nb_assert((a & 15) == (r.frames ? 0 : opcode), "the first frame has the kind of the message, the others continue it");
    nb_assert(n <= most, "a frame is no longer than the largest frame size");
    if (p + n > o.size()) return r;
    r.payload.append(o, p, n); p += n; r.frames++;
    if (a & 128) { r.ok = true; r.end = p; return r; }
  }
}
template <unsigned char op> struct kind {};
template <typename Max> void sent(unsigned long n, unsigned rounds, bool control_only, bool faults)
{
  nbnet::conn c; tcp::socket s(c); ws::message_sender<std::string, Max> sender(s);
  std::string expect; unsigned long done = 0; bool failed = false;
  for (unsigned k = 0; k < rounds && !failed; k++) {
    std::string msg = nb_string(n, "message"); sender.payload() = msg;
    unsigned what = control_only ? 2 + nb_choose(3, "kind") : nb_choose(2, "kind"); unsigned op = what == 0 ? 1 : what == 1 ? 2 : what == 2 ? 8 : what == 3 ? 9 : 10;
    unsigned resolved = 0, rejected = 0; bool same = false; std::error_code err{};
    auto go = [&](auto send) {
      nbdl::run_async(hana::make_tuple(nbdl::promise([send](auto& resolver, auto& sn) { send(resolver, sn); }), [&](auto& sn) { resolved++; same = &sn == &sender; }, nbdl::catch_([&](std::error_code e) { rejected++; err = e; })), sender); };
    if (what == 0) go(ws::send_text); else if (what == 1) go(ws::send_binary); else if (what == 2) go(ws::send_close); else if (what == 3) go(ws::send_ping); else go(ws::send_pong);
    unsigned w = 0, broken = faults ? nb_choose(3, "broken") : 9;
    std::string before = c.out;
    while (c.can_write()) {
      nb_assert((resolved | rejected) == 0, "settled before everything was written");
      if (w++ == broken) { unsigned long t = nbnet::conn::total(c.wr); unsigned long px = nb_choose(4, "prefix"); px = px == 3 ? t : px < t ? px : t;
        unsigned long had = c.out.size(); c.fail_write(px, asio::error::connection_reset); nb_assert((resolved == 0) & (rejected == 1), "a failed write rejects, once"); nb_assert(err == asio::error::connection_reset, "with the error");
        nb_assert(!c.can_write(), "nothing more is written after an error"); failed = true; nb_cover("failed"); nb_assert(c.out.size() == had + px, "written"); break; }
      c.do_write(); nb_assert(w <= n / 1 + 2, "more frames than bytes"); }
    if (failed) break;
    nb_assert((resolved == 1) & (rejected == 0), "a message that was written resolves, once"); nb_assert(same, "resolves with the sender");
    parsed p = frames(c.out, done, op, Max::value);
    nb_assert(p.ok, "the frames end with a final frame"); nb_assert(p.end == c.out.size(), "nothing follows the final frame");
    nb_assert(p.payload.size() == n && nb_memeq(p.payload.data(), msg.data(), n), "the frames carry the message"); nb_assert(!control_only | (p.frames == 1), "a control message is one frame");
    nb_assert(sender.payload().size() == n && nb_memeq(sender.payload().data(), msg.data(), n), "the payload is left as it was");
    done = p.end; nb_cover(p.frames > 1 ? "several" : "one");
  }
  nb_observe_mem("out", c.out.data(), c.out.size() < 64 ? c.out.size() : 64); nb_cover("end");
}
static unsigned long len() { return nb_param("from", 0) + nb_choose(nb_param("count", 1), "length"); }
NB_ENTRY(message) { unsigned long n = len(); sent<hana::size_t<125>>(n, nb_param("rounds", 1), false, nb_param("faults", 0)); }
NB_ENTRY(control) { unsigned long n = len(); sent<hana::size_t<125>>(n, nb_param("rounds", 2), true, nb_param("faults", 0)); }
NB_ENTRY(tiny_frames) { unsigned long n = len(); sent<hana::size_t<3>>(n, nb_param("rounds", 1), false, nb_param("faults", 0)); }
NB_ENTRY(medium_frames) { unsigned long n = len(); sent<hana::size_t<1000>>(n, nb_param("rounds", 1), false, nb_param("faults", 0)); }
NB_ENTRY(large_frames) { unsigned long n = len(); sent<hana::size_t<70000>>(n, nb_param("rounds", 1), false, nb_param("faults", 0)); }
// the head of a frame for every 64-bit payload length (the payload itself is never touched)
NB_ENTRY(any_length)
{
  nbnet::conn c; tcp::socket s(c); ws::message_sender<std::string> sender(s); unsigned char byte = 0; unsigned long n = nb_any<unsigned long>("length"); nb_assume(n < (1ul << 63)); unsigned char op = nb_any<unsigned char>("opcode");
  unsigned called = 0; sender.set_opcode(op);
  sender.send_frame_impl(asio::const_buffer(static_cast<void const*>(&byte), n), [&](std::error_code, std::size_t) { called++; });
  nb_assert(c.can_write() & (called == 0), "the write is started");
  unsigned char h[16] = {}; unsigned long k = 0; auto& b = c.wr->bufs; nb_assert(b.size() >= 2, "buffers");
  for (unsigned i = 0; i + 1 < b.size(); i++) { auto q = static_cast<unsigned char const*>(b[i].data()); for (unsigned long j = 0; j < b[i].size(); j++) { nb_assert(k < 10, "head too long"); h[k++] = q[j]; } }
  nb_assert(b.back().data() == &byte, "payload"); nb_assert(b.back().size() == n, "payload size"); nb_assert(k >= 2, "head"); nb_assert(h[0] == op, "opcode byte");
  unsigned code = h[1]; unsigned long v = 0; for (unsigned i = 2; i < 10; i++) if (i < k) v = v << 8 | h[i];
  nb_assert(code < 128, "mask bit"); nb_assert(k == 2 ? (code < 126) & (code == n) : k == 4 ? (code == 126) & (v == n) & (n >= 126) : (k == 10) & (code == 127) & (v == n) & (n >= 65536), "the length is written in the shortest form");
  nb_observe_mem("head", h, k); nb_cover(k == 2 ? "short" : k == 4 ? "medium" : "long"); nb_cover("end");
  c.fail_write(0, asio::error::connection_reset); nb_assert(called == 1, "handler called once");
}
