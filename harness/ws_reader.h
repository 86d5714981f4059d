// a message reader on an in-memory connection, and the log of what it reports
#pragma once
#include <nb.h>
#include <boost/asio.hpp>
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/websocket/detail/message_reader.hpp>
#include <memory>
#include <string>
#include <vector>
namespace asio = boost::asio; namespace hana = boost::hana; using asio::ip::tcp;
namespace ws = nbdl::websocket::detail; namespace read_event = nbdl::websocket::detail::read_event;
enum ev_kind { MESSAGE, PING, PONG, CLOSE, BAD, ERR };
struct ev { int kind; std::string payload; };
template <typename Store> auto reader_handler(Store store)
{
  return hana::make_map(
    hana::make_pair(read_event::message, [store](auto, auto& ctx) { store(MESSAGE, std::string(ctx.payload.begin(), ctx.payload.end())); }),
    hana::make_pair(read_event::ping, [store](auto, auto& ctx) { store(PING, std::string()); }),
    hana::make_pair(read_event::pong, [store](auto, auto& ctx) { store(PONG, std::string()); }),
    hana::make_pair(read_event::close, [store](auto, auto& ctx) { store(CLOSE, std::string(ctx.payload.begin(), ctx.payload.end())); }),
    hana::make_pair(read_event::bad_input, [store](auto, auto& ctx) { store(BAD, std::string()); }),
    hana::make_pair(hana::type_c<std::error_code>, [store](auto e, auto& ctx) { nb_assert(static_cast<bool>(e), "an error event without an error"); store(ERR, std::string()); }));
}
// what a frame looks like on the wire
inline void put_frame(std::string& tape, unsigned op, bool fin, bool masked, unsigned form, std::string const& payload, unsigned reserved = 0)
{
  unsigned long n = payload.size(); tape += (char)(op | (fin ? 128 : 0) | reserved); unsigned m = masked ? 128 : 0;
  if (form == 0) tape += (char)(m | n); else { unsigned k = form == 1 ? 2 : 8; tape += (char)(m | (form == 1 ? 126 : 127)); for (unsigned i = k; i-- > 0;) tape += (char)(i < 8 ? n >> (8 * i) : 0); }
  unsigned char key[4] = {0, 0, 0, 0}; if (masked) { nb_make_symbolic(key, 4, "mask"); tape.append((char*)key, 4); }
  for (unsigned long i = 0; i < n; i++) tape += (char)((unsigned char)payload[i] ^ key[i % 4]);
}
