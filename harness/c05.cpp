// C05: whatever a peer sends, the reader stays inside its buffers, ends once and reads no more.
#include "ws_reader.h"
struct seen { unsigned messages = 0, pings = 0, last = 99, events = 0; unsigned long bytes = 0; bool after = false; };
static seen run(std::string const& tape)
{
  seen v; nbnet::conn c; c.in = tape; tcp::socket s(c); auto held = std::make_shared<int>(7);
  auto reader = ws::make_message_reader(hana::type_c<std::string>, s, reader_handler([&](int k, std::string p) {
    if (v.last == CLOSE || v.last == BAD || v.last == ERR) v.after = true; v.last = k; v.events++; if (k == MESSAGE) { v.messages++; v.bytes += p.size(); } if (k == CLOSE) v.bytes += p.size(); if (k == PING) v.pings++; }));
  reader.keep_reading(held); unsigned n = 0;
  while (c.can_read()) { c.do_read(); nb_assert(++n < 100, "the reader goes on for ever"); }
  if (c.rd) { unsigned how = nb_choose(3, "how"); if (how == 2) s.close(); else { c.ended = true; c.end_error = how ? std::error_code(asio::error::connection_reset) : std::error_code(asio::error::eof); } c.do_read(); nb_cover("cut"); nb_assert(v.last == ERR, "the end of the stream is an error event"); }
  nb_assert((v.last == CLOSE) | (v.last == BAD) | (v.last == ERR), "reading ends with a terminal event"); nb_assert(!v.after, "nothing is reported after the terminal event");
  nb_assert(c.rd == nullptr, "nothing is read after the terminal event"); nb_assert(held.use_count() == 1, "what the reader kept is released"); nb_assert(v.bytes <= tape.size(), "a message holds only bytes that were sent");
  nb_observe("events", v.events); nb_observe("last", v.last); nb_cover(v.last == CLOSE ? "close" : v.last == BAD ? "bad" : "err"); nb_cover("end"); return v;
}
NB_ENTRY(raw) { unsigned n = nb_param("n", 3); run(nb_string(n, "stream")); }
// one well-formed start (or none), then a frame with any first byte, any length code and length, cut anywhere
static void frame(std::string& t, bool last, bool strict = true)
{
  std::string b = nb_string(1, "first"); t += b; bool masked = nb_choose(2, "masked"); unsigned only = nb_param(last ? "form" : "form0", 9), form = only < 4 ? only : nb_choose(4, "form"); unsigned long n = 0; std::string ext;
  bool impossible = false;
  if (form == 0) n = nb_choose(4, "n"); else if (form == 1) { static unsigned const v[] = {0, 2, 126, 300, 65535}; n = v[nb_choose(5, "n")]; ext = std::string{(char)(n >> 8), (char)n}; }
  else if (form == 2) { static unsigned long const v[] = {0, 3, 65536, 1ul << 20}; n = v[nb_choose(4, "n")]; for (int i = 8; i-- > 0;) ext += (char)(n >> (8 * i)); }
  else { ext = nb_string(8, "huge"); bool any = false; for (int i = 0; i < 3; i++) any = any | (ext[i] != 0); nb_assume(any); impossible = true; } // 2^40 or more
  t += (char)((masked ? 128 : 0) | (form == 0 ? n : form == 1 ? 126 : 127)); t += ext; if (masked) t += nb_string(4, "mask");
  if (!last) { if (n > 300) nb_assume(false); t += nb_string(n, "payload"); if (impossible) nb_assume(false); return; }
  unsigned op = (unsigned char)b[0] & 15; bool reserved = ((op >= 3) & (op <= 7)) | (op > 10);
  unsigned long head = t.size(); unsigned more = nb_choose(impossible ? 2 : 6, "more"); static unsigned const extra[] = {0, 1, 1, 0, 0, 0};
  unsigned long k = more < 2 ? extra[more] : impossible ? 0 : (more == 2) | (more == 3) ? (n > 0 ? n - 1 : 0) : more == 4 ? n : n + 1; if (k > 70000) { nb_assume(false); }
  if (n > 300) { std::string big(k, 'x'); t += big; } else t += nb_string(k, "payload");
  unsigned cut = nb_choose(2, "cut"); if (cut) { unsigned long at = nb_choose(head, "at"); t.resize(at); }
  seen v = run(t);
  if (!cut && strict) { nb_assert(!reserved | (v.last == BAD), "a reserved opcode is bad input"); nb_assert(!impossible | (v.last == BAD), "an impossible length is bad input"); if (impossible) { nb_cover("impossible"); nb_assert(v.messages == nb_param("complete", 0), "a message that cannot be"); } nb_assert((!(k < n) | reserved) | (v.last == ERR), "an unfinished frame ends in an error"); }
}
NB_ENTRY(one) { std::string t; frame(t, true); }
NB_ENTRY(after_fragment) { std::string t; put_frame(t, 1, false, nb_choose(2, "m"), 0, nb_string(nb_choose(3, "n0"), "before")); frame(t, true); }
NB_ENTRY(after_control) { std::string t; put_frame(t, nb_choose(2, "pong") ? 10 : 9, true, nb_choose(2, "m"), 0, nb_string(nb_choose(3, "n0"), "before")); frame(t, true); }
NB_ENTRY(two) { std::string t; frame(t, false); frame(t, true, false); }
