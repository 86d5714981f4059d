// C04: for every valid sequence of frames the reader reports the messages they carry.
#include "ws_reader.h"
static void run(std::string const& tape, std::vector<ev> const& expect, bool closes)
{
  std::vector<ev> got; nbnet::conn c; c.in = tape; tcp::socket s(c); auto held = std::make_shared<int>(7);
  auto reader = ws::make_message_reader(hana::type_c<std::string>, s, reader_handler([&](int k, std::string p) { got.push_back(ev{k, std::move(p)}); }));
  reader.keep_reading(held); unsigned n = 0;
  while (c.can_read()) { c.do_read(); nb_assert(++n < 200, "the reader goes on for ever"); }
  nb_assert(got.size() == expect.size(), "one event for each message and control frame");
  for (unsigned i = 0; i < expect.size(); i++) { nb_assert(got[i].kind == expect[i].kind, "the events come in the order of the frames");
    nb_assert(got[i].payload.size() == expect[i].payload.size() && nb_memeq(got[i].payload.data(), expect[i].payload.data(), expect[i].payload.size()), "a message is the concatenation of its fragments"); }
  if (closes) { nb_assert((c.rd == nullptr) & (held.use_count() == 1), "nothing is read after a close"); nb_cover("closed"); }
  else { nb_assert((c.pos == tape.size()) & (c.rd != nullptr), "the reader waits for the next frame"); c.ended = true; c.end_error = nb_choose(2, "how") ? std::error_code(asio::error::connection_reset) : std::error_code(asio::error::eof);
    c.do_read(); nb_assert(got.size() == expect.size() + 1 && got.back().kind == ERR, "the end of the stream is reported, once"); nb_assert((c.rd == nullptr) & (held.use_count() == 1), "nothing is read after an error"); }
  for (auto& e : got) nb_observe_mem("event", e.payload.data(), e.payload.size() < 40 ? e.payload.size() : 40);
  nb_cover("end");
}
// frames of every kind; lengths from a few short ones
static void build(unsigned frames, unsigned lens, unsigned const* len, unsigned form_of_first)
{
  std::string tape; std::vector<ev> expect; std::string msg; bool open = false, closed = false;
  for (unsigned i = 0; i < frames && !closed; i++) {
    unsigned k = nb_choose(open ? 5 : 7, "kind"); // open: continue, finish, ping, pong, close; else: text/binary, whole or first part
    bool masked = nb_choose(2, "masked"); unsigned n = len[nb_choose(lens, "length")]; std::string p = nb_string(n, "payload");
    unsigned form = n < 126 ? 0 : n < 65536 ? 1 : 2; if (form) nb_cover(form == 1 ? "medium" : "long");
    if (!open && k < 4) { bool fin = k & 1; put_frame(tape, k & 2 ? 2 : 1, fin, masked, form, p); msg += p; if (fin) { expect.push_back(ev{MESSAGE, msg}); msg.clear(); nb_cover("whole"); } else open = true; continue; }
    if (open && k < 2) { put_frame(tape, 0, k & 1, masked, form, p); msg += p; if (k & 1) { expect.push_back(ev{MESSAGE, msg}); msg.clear(); open = false; nb_cover("fragmented"); } continue; }
    k -= open ? 2 : 4; if (n > 125) { nb_assume(false); }
    put_frame(tape, k == 0 ? 9 : k == 1 ? 10 : 8, true, masked, 0, p);
    if (k == 2) { expect.push_back(ev{CLOSE, p}); closed = true; if (nb_choose(2, "after")) put_frame(tape, 1, true, false, 0, "never read"); } else { expect.push_back(ev{k == 0 ? PING : PONG, {}}); if (n) nb_cover("control-payload"); }
  }
  run(tape, expect, closed);
}
NB_ENTRY(sequences) { static unsigned const l2[] = {0, 5}, l3[] = {0, 3, 9}; bool w = nb_param("lens", 2) == 3; build(nb_param("frames", 3), w ? 3 : 2, w ? l3 : l2, 0); }
NB_ENTRY(control_between) // a fragment, a control frame of any length, the rest
{
  std::string tape, a = nb_string(nb_param("a", 3), "a"), b = nb_string(nb_param("b", 4), "b"), p = nb_string(nb_choose(nb_param("upto", 126), "n"), "payload"); bool ma = nb_choose(2, "mask_a"), mp = nb_choose(2, "mask_p"), pong = nb_choose(2, "pong");
  put_frame(tape, 1, false, ma, 0, a); put_frame(tape, pong ? 10 : 9, true, mp, 0, p); put_frame(tape, 0, true, !ma, 0, b); put_frame(tape, 2, true, mp, 0, a);
  run(tape, {ev{pong ? PONG : PING, {}}, ev{MESSAGE, a + b}, ev{MESSAGE, a}}, false); nb_cover("between");
}
NB_ENTRY(lengths) { unsigned n = nb_param("from", 0) + nb_choose(nb_param("count", 1), "n"); static unsigned l[1]; l[0] = n; build(nb_param("frames", 1), 1, l, 0); }
NB_ENTRY(close_lengths) { std::string tape, p = nb_string(nb_choose(126, "n"), "payload"), a = nb_string(2, "a"); if (nb_choose(2, "open")) put_frame(tape, 1, false, true, 0, a); put_frame(tape, 8, true, nb_choose(2, "masked"), 0, p); put_frame(tape, 1, true, true, 0, a); run(tape, {ev{CLOSE, p}}, true); }
