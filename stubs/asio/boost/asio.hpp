// Stand-in for Boost.Asio (documented semantics of 1.83) over an in-memory connection driven by the harness.
// Nothing completes inside the call that starts it; the harness completes operations one at a time, in any order
// it chooses (nbnet::...).  Bytes of a write are read when the write completes, not when it is started, so that
// buffers changed or freed while a write is pending are noticed.  Composed operations match asio:
//  async_read        completes when the buffers are full, or with the error that follows the available bytes
//  async_write       completes when everything is written, or with an error after a prefix
//  async_read_until  looks into the buffer first, then reads pieces whose sizes the harness chooses
#pragma once
#include <array>
#include <cstddef>
#include <cstring>
#include <functional>
#include <iterator>
#include <memory>
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" void nb_fail(const char*) __attribute__((noreturn));

namespace boost::system {
  using error_code = std::error_code; using error_category = std::error_category; using system_error = std::system_error; using error_condition = std::error_condition;
}
namespace nbnet {
  struct category final : std::error_category {
    const char* n; constexpr explicit category(const char* n_) : n(n_) {}
    const char* name() const noexcept override { return n; }
    std::string message(int) const override { return n; }
  };
  inline category system_cat("system"), misc_cat("asio.misc");
}
namespace boost::asio::error {
  enum basic_errors { access_denied = 13, already_open = 114, bad_descriptor = 9, broken_pipe = 32, connection_aborted = 103, connection_refused = 111, connection_reset = 104, fault = 14, not_connected = 107, operation_aborted = 125, shut_down = 108, timed_out = 110, try_again = 11, would_block = 11, no_memory = 12, invalid_argument = 22, message_size = 90 };
  enum misc_errors { already_open_ = 1, eof = 2, not_found = 3, fd_set_failure = 4 };
  inline std::error_code make_error_code(basic_errors e) { return {static_cast<int>(e), nbnet::system_cat}; }
  inline std::error_code make_error_code(misc_errors e) { return {static_cast<int>(e), nbnet::misc_cat}; }
}
namespace std {
  template <> struct is_error_code_enum<boost::asio::error::basic_errors> : true_type {};
  template <> struct is_error_code_enum<boost::asio::error::misc_errors> : true_type {};
}
namespace boost::asio {
  using boost::system::error_code;
  class mutable_buffer {
    void* p = nullptr; std::size_t n = 0;
  public:
    constexpr mutable_buffer() = default; constexpr mutable_buffer(void* q, std::size_t k) : p(q), n(k) {}
    void* data() const { return p; } std::size_t size() const { return n; }
    mutable_buffer& operator+=(std::size_t k) { if (k > n) k = n; p = static_cast<char*>(p) + k; n -= k; return *this; }
    friend mutable_buffer operator+(mutable_buffer b, std::size_t k) { b += k; return b; }
  };
  class const_buffer {
    void const* p = nullptr; std::size_t n = 0;
  public:
    constexpr const_buffer() = default; constexpr const_buffer(void const* q, std::size_t k) : p(q), n(k) {} const_buffer(mutable_buffer const& b) : p(b.data()), n(b.size()) {}
    void const* data() const { return p; } std::size_t size() const { return n; }
    const_buffer& operator+=(std::size_t k) { if (k > n) k = n; p = static_cast<char const*>(p) + k; n -= k; return *this; }
    friend const_buffer operator+(const_buffer b, std::size_t k) { b += k; return b; }
  };
  using mutable_buffers_1 = mutable_buffer; using const_buffers_1 = const_buffer;
  inline mutable_buffer const* buffer_sequence_begin(mutable_buffer const& b) { return &b; }
  inline mutable_buffer const* buffer_sequence_end(mutable_buffer const& b) { return &b + 1; }
  inline const_buffer const* buffer_sequence_begin(const_buffer const& b) { return &b; }
  inline const_buffer const* buffer_sequence_end(const_buffer const& b) { return &b + 1; }
  template <typename C> auto buffer_sequence_begin(C& c) -> decltype(c.begin()) { return c.begin(); }
  template <typename C> auto buffer_sequence_end(C& c) -> decltype(c.end()) { return c.end(); }
  template <typename S> std::size_t buffer_size(S const& s) { std::size_t k = 0; auto e = buffer_sequence_end(s); for (auto i = buffer_sequence_begin(s); i != e; ++i) k += const_buffer(*i).size(); return k; }

  namespace detail { inline std::size_t least(std::size_t a, std::size_t b) { return a < b ? a : b; } constexpr std::size_t all = ~std::size_t(0); }
  inline mutable_buffer buffer(mutable_buffer const& b) { return b; }
  inline mutable_buffer buffer(mutable_buffer const& b, std::size_t m) { return {b.data(), detail::least(b.size(), m)}; }
  inline const_buffer buffer(const_buffer const& b) { return b; }
  inline const_buffer buffer(const_buffer const& b, std::size_t m) { return {b.data(), detail::least(b.size(), m)}; }
  inline mutable_buffer buffer(void* p, std::size_t n) { return {p, n}; }
  inline const_buffer buffer(void const* p, std::size_t n) { return {p, n}; }
  template <typename T, std::size_t N> mutable_buffer buffer(T (&a)[N], std::size_t m = detail::all) { return {a, detail::least(N * sizeof(T), m)}; }
  template <typename T, std::size_t N> const_buffer buffer(T const (&a)[N], std::size_t m = detail::all) { return {a, detail::least(N * sizeof(T), m)}; }
  template <typename T, std::size_t N> mutable_buffer buffer(std::array<T, N>& a, std::size_t m = detail::all) { return {a.data(), detail::least(N * sizeof(T), m)}; }
  template <typename T, std::size_t N> const_buffer buffer(std::array<T const, N>& a, std::size_t m = detail::all) { return {a.data(), detail::least(N * sizeof(T), m)}; }
  template <typename T, std::size_t N> const_buffer buffer(std::array<T, N> const& a, std::size_t m = detail::all) { return {a.data(), detail::least(N * sizeof(T), m)}; }
  template <typename T, typename A> mutable_buffer buffer(std::vector<T, A>& a, std::size_t m = detail::all) { return {a.size() ? a.data() : nullptr, detail::least(a.size() * sizeof(T), m)}; }
  template <typename T, typename A> const_buffer buffer(std::vector<T, A> const& a, std::size_t m = detail::all) { return {a.size() ? a.data() : nullptr, detail::least(a.size() * sizeof(T), m)}; }
  template <typename T, typename R, typename A> mutable_buffer buffer(std::basic_string<T, R, A>& a, std::size_t m = detail::all) { return {a.size() ? &a[0] : nullptr, detail::least(a.size() * sizeof(T), m)}; }
  template <typename T, typename R, typename A> const_buffer buffer(std::basic_string<T, R, A> const& a, std::size_t m = detail::all) { return {a.data(), detail::least(a.size() * sizeof(T), m)}; }
  template <typename T, typename R> const_buffer buffer(std::basic_string_view<T, R> a, std::size_t m = detail::all) { return {a.size() ? &a[0] : nullptr, detail::least(a.size() * sizeof(T), m)}; }

  template <typename C> class dynamic_container_buffer {
    C* c; std::size_t n, m;
  public:
    dynamic_container_buffer(C& c_, std::size_t m_) : c(&c_), n(detail::least(c_.size(), m_)), m(m_) {}
    std::size_t size() const { return n; } std::size_t max_size() const { return m; }
    std::size_t capacity() const { return detail::least(c->capacity(), m); }
    const_buffer data() const { return {c->data(), n}; }
    mutable_buffer prepare(std::size_t k) { if (n > m || m - n < k) throw std::length_error("dynamic buffer too long"); c->resize(n + k); return {&(*c)[n], k}; }
    void commit(std::size_t k) { n += detail::least(k, c->size() - n); c->resize(n); }
    void consume(std::size_t k) { std::size_t l = detail::least(k, n); c->erase(c->begin(), c->begin() + l); n -= l; }
  };
  template <typename T, typename R, typename A> auto dynamic_buffer(std::basic_string<T, R, A>& s, std::size_t m = std::size_t(-1) / 2) { return dynamic_container_buffer<std::basic_string<T, R, A>>(s, m); }
  template <typename T, typename A> auto dynamic_buffer(std::vector<T, A>& s, std::size_t m = std::size_t(-1) / 2) { return dynamic_container_buffer<std::vector<T, A>>(s, m); }

  struct io_context { struct executor_type { io_context* c; }; executor_type get_executor() { return {this}; } void stop() {} };
  using io_service = io_context;
}
namespace nbnet {
  using boost::asio::error_code; namespace asio = boost::asio;
  struct conn;
  struct op { virtual void done(error_code e, std::size_t n) = 0; virtual ~op() {} };
  struct read_op : op { std::vector<asio::mutable_buffer> bufs; bool some = false; virtual bool until() { return false; } virtual bool ready(conn&) = 0; virtual void go(conn&) = 0; };
  struct write_op : op { std::vector<asio::const_buffer> bufs; bool some = false; };

  struct conn {                       // one end of a byte stream
    std::string in;                   // bytes that have arrived or will arrive (the harness may append)
    std::size_t pos = 0;              // bytes already taken
    bool ended = false;               // after `in`: the error below, otherwise nothing yet
    error_code end_error = asio::error::eof;
    std::string out;                  // bytes written
    read_op* rd = nullptr; write_op* wr = nullptr;
    bool shut = false, closed = false, aborted_rd = false, aborted_wr = false, shutdown_fails = false;
    unsigned writes = 0, reads = 0;   // operations started
    std::size_t (*piece)(conn&, std::size_t most) = nullptr; // how much one read_some takes (default: all there is)
    conn() = default; conn(conn const&) = delete;
    ~conn() { read_op* r = rd; write_op* w = wr; rd = nullptr; wr = nullptr; delete r; delete w; }
    std::size_t avail() const { return in.size() - pos; }
    bool can_read() { return rd && (aborted_rd || rd->ready(*this)); }
    bool can_write() { return wr != nullptr; }
    void do_read() { read_op* r = rd; if (aborted_rd) { rd = nullptr; aborted_rd = false; r->done(asio::error::operation_aborted, 0); } else r->go(*this); }
    static std::size_t total(write_op* w) { std::size_t k = 0; for (auto& b : w->bufs) k += b.size(); return k; }
    void do_write() { write_op* w = wr; if (aborted_wr || shut || closed) { wr = nullptr; bool ab = aborted_wr; aborted_wr = false; w->done(ab ? error_code(asio::error::operation_aborted) : error_code(asio::error::broken_pipe), 0); return; }
      std::size_t k = 0; for (auto& b : w->bufs) { if (b.size()) out.append(static_cast<char const*>(b.data()), b.size()); k += b.size(); } wr = nullptr; w->done(error_code(), k); }
    void fail_write(std::size_t prefix, error_code e) { write_op* w = wr; wr = nullptr; std::size_t left = prefix, k = 0; for (auto& b : w->bufs) { std::size_t m = b.size() < left ? b.size() : left; if (m) out.append(static_cast<char const*>(b.data()), m); left -= m; k += m; } w->done(e, k); }
    void abort() { if (rd) aborted_rd = true; if (wr) aborted_wr = true; }
    void start(read_op* r) { reads++; if (rd) nb_fail("two reads of one connection at a time"); rd = r; }
    void start(write_op* w) { writes++; if (wr) nb_fail("two writes to one connection at a time"); wr = w; }
  };
  template <typename H> struct finish { static void call(op* self, H& h, error_code e, std::size_t n) { H f(std::move(h)); delete self; f(e, n); } };
  template <typename H> struct read_all final : read_op {
    H h; explicit read_all(H&& h_) : h(std::move(h_)) {}
    void done(error_code e, std::size_t n) override { finish<H>::call(this, h, e, n); }
    std::size_t want() const { std::size_t k = 0; for (auto& b : bufs) k += b.size(); return k; }
    bool ready(conn& c) override { std::size_t w = want(); return w == 0 || c.closed || c.ended || (some ? c.avail() > 0 : c.avail() >= w); }
    void go(conn& c) override {
      std::size_t w = want(), k = c.avail() < w ? c.avail() : w; if (some && k && c.piece) k = c.piece(c, k);
      if (c.closed && w) { c.rd = nullptr; done(asio::error::bad_descriptor, 0); return; }
      std::size_t left = k; for (auto& b : bufs) { std::size_t m = b.size() < left ? b.size() : left; if (m) std::memcpy(b.data(), c.in.data() + c.pos, m); c.pos += m; left -= m; }
      bool full = some ? (k > 0 || w == 0) : k == w; c.rd = nullptr; done(full ? error_code() : c.end_error, k); }
  };
  template <typename B, typename H> struct read_to final : read_op {
    B b; std::string delim; std::size_t from = 0; H h; read_to(B b_, std::string d, H&& h_) : b(b_), delim(std::move(d)), h(std::move(h_)) {}
    bool until() override { return true; }
    void done(error_code e, std::size_t n) override { finish<H>::call(this, h, e, n); }
    static bool same(char const* p, std::string const& d) { bool r = true; for (std::size_t i = 0; i < d.size(); i++) r = r & (p[i] == d[i]); return r; }
    std::size_t find() { auto d = b.data(); auto p = static_cast<char const*>(d.data()); std::size_t i = from; for (; i + delim.size() <= d.size(); i++) if (same(p + i, delim)) return i + delim.size(); from = i; return 0; }
    bool ready(conn& c) override { return c.ended || c.closed || c.avail() > 0 || b.size() == b.max_size() || find() != 0; }
    void go(conn& c) override { // one piece at a time; completes when the delimiter, the limit or the end is met
      std::size_t k = find(); if (k) { c.rd = nullptr; done(error_code(), k); return; }
      if (b.size() == b.max_size()) { c.rd = nullptr; done(asio::error::not_found, 0); return; }
      if (c.closed) { c.rd = nullptr; done(asio::error::bad_descriptor, 0); return; }
      if (c.avail() == 0) { c.rd = nullptr; done(c.end_error, 0); return; }
      std::size_t spare = b.capacity() - b.size(), most = asio::detail::least(spare > 512 ? spare : 512, asio::detail::least(65536, b.max_size() - b.size()));
      auto m = b.prepare(most); std::size_t n = asio::detail::least(c.avail(), most); if (c.piece) n = c.piece(c, n);
      std::memcpy(m.data(), c.in.data() + c.pos, n); c.pos += n; b.commit(n);
      k = find(); if (k) { c.rd = nullptr; done(error_code(), k); } else if (b.size() == b.max_size()) { c.rd = nullptr; done(asio::error::not_found, 0); } }
  };
  template <typename H> struct write_all final : write_op {
    H h; explicit write_all(H&& h_) : h(std::move(h_)) {}
    void done(error_code e, std::size_t n) override { finish<H>::call(this, h, e, n); }
  };
}
namespace boost::asio {
  struct socket_base { enum shutdown_type { shutdown_receive = 0, shutdown_send = 1, shutdown_both = 2 }; };
  namespace ip {
    struct tcp {
      struct socket : socket_base {
        nbnet::conn* c = nullptr; io_context* io = nullptr;
        using lowest_layer_type = socket; using protocol_type = tcp; using executor_type = io_context::executor_type;
        explicit socket(nbnet::conn& c_) : c(&c_) {} explicit socket(io_context& i) : io(&i) {}
        socket(socket&& o) noexcept : c(o.c), io(o.io) { o.c = nullptr; }
        socket& operator=(socket&& o) noexcept { if (this != &o) { drop(); c = o.c; io = o.io; o.c = nullptr; } return *this; }
        ~socket() { drop(); }
        void drop() { if (c) { c->abort(); c->closed = true; c = nullptr; } }
        bool is_open() const { return c && !c->closed; }
        void close() { if (c) { c->abort(); c->closed = true; } } void close(error_code& e) { close(); e = error_code(); }
        void cancel() { if (c) c->abort(); } void cancel(error_code& e) { cancel(); e = error_code(); }
        void shutdown(shutdown_type, error_code& e) { if (!c || c->closed) { e = error::bad_descriptor; return; } if (c->shutdown_fails) { e = error::not_connected; return; } c->shut = true; if (!c->ended) { c->ended = true; c->in.resize(c->pos); c->end_error = error::eof; } e = error_code(); }
        void shutdown(shutdown_type t) { error_code e; shutdown(t, e); if (e) throw std::runtime_error("shutdown"); }
        socket& lowest_layer() { return *this; } executor_type get_executor() { return {io}; }
        template <typename S, typename H> void async_read_some(S const& s, H&& h) { auto* o = new nbnet::read_all<std::decay_t<H>>(std::decay_t<H>(std::forward<H>(h))); o->some = true; auto e = buffer_sequence_end(s); for (auto i = buffer_sequence_begin(s); i != e; ++i) o->bufs.push_back(*i); c->start(o); }
        template <typename S, typename H> void async_write_some(S const& s, H&& h) { auto* o = new nbnet::write_all<std::decay_t<H>>(std::decay_t<H>(std::forward<H>(h))); o->some = true; auto e = buffer_sequence_end(s); for (auto i = buffer_sequence_begin(s); i != e; ++i) o->bufs.push_back(*i); c->start(o); }
      };
    };
  }
  template <typename S, typename H> void async_read(ip::tcp::socket& k, S const& s, H&& h) {
    auto* o = new nbnet::read_all<std::decay_t<H>>(std::decay_t<H>(std::forward<H>(h))); auto e = buffer_sequence_end(s); for (auto i = buffer_sequence_begin(s); i != e; ++i) o->bufs.push_back(*i); k.c->start(o); }
  template <typename S, typename H> void async_write(ip::tcp::socket& k, S const& s, H&& h) {
    auto* o = new nbnet::write_all<std::decay_t<H>>(std::decay_t<H>(std::forward<H>(h))); auto e = buffer_sequence_end(s); for (auto i = buffer_sequence_begin(s); i != e; ++i) o->bufs.push_back(*i); k.c->start(o); }
  template <typename B, typename H> void async_read_until(ip::tcp::socket& k, B&& b, std::string_view d, H&& h) {
    auto* o = new nbnet::read_to<std::decay_t<B>, std::decay_t<H>>(b, std::string(d), std::decay_t<H>(std::forward<H>(h))); k.c->start(o); }
  template <typename B, typename H> void async_read_until(ip::tcp::socket& k, B&& b, char d, H&& h) {
    auto* o = new nbnet::read_to<std::decay_t<B>, std::decay_t<H>>(b, std::string(1, d), std::decay_t<H>(std::forward<H>(h))); k.c->start(o); }
  template <typename F> void post(F&& f); template <typename F> void dispatch(F&& f);
}
