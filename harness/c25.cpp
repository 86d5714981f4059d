#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/message.hpp>
#include <nbdl/variant.hpp>
#include <string>
namespace hana = boost::hana; namespace msg = nbdl::message;
namespace ex { struct root { int a; }; struct item { int n; std::string s; }; struct secret { int k; std::string s; }; }
namespace nbdl { NBDL_ENTITY(ex::root, a); NBDL_ENTITY(ex::item, n, s); NBDL_ENTITY(ex::secret, k, s); }
namespace {
using K1 = nbdl::key<ex::root>; using K2 = nbdl::key<ex::item>;
struct all { unsigned k1, k2; nbdl::uid id{}; ex::item p; ex::secret q; };
std::string str(const char* n) { return nb_string(nb_choose(nb_param("len", 1) + 1, n), n); }
all any() { all a{}; a.k1 = nb_any<unsigned>("k1"); a.k2 = nb_any<unsigned>("k2"); nb_make_symbolic(&*a.id.begin(), 16, "uid"); a.p = {nb_any<int>("n"), str("s")}; a.q = {nb_any<int>("k"), str("t")}; return a; }
auto full(all const& a) { return hana::make_tuple(K1(a.k1), K2(a.k2)); }
auto parent(all const& a) { return hana::make_tuple(K1(a.k1)); }
bool is(nbdl::uid const& x, nbdl::uid const& y) { return x == y; }
bool is(ex::item const& x, ex::item const& y) { return (x.n == y.n) & (x.s == y.s); }
bool is(ex::secret const& x, ex::secret const& y) { return (x.k == y.k) & (x.s == y.s); }
template <typename A, typename B> bool is(A const&, B const&) { return false; } // another type than the one given
template <typename P> bool isPath(P const&, all const&) { return false; }
bool isPath(hana::tuple<K1, K2> const& p, all const& a) { return (p[hana::size_c<0>].value == a.k1) & (p[hana::size_c<1>].value == a.k2); }
template <typename P> bool isParent(P const&, all const&) { return false; }
bool isParent(hana::tuple<K1> const& p, all const& a) { return p[hana::size_c<0>].value == a.k1; }
template <typename M, typename Ch, typename Ac> void kind(M const& m, Ch, Ac, bool up, int ac) {
  nb_assert(std::is_same_v<decltype(msg::get_channel(m)), Ch> && std::is_same_v<decltype(msg::get_action(m)), Ac>, "channel and action of a message");
  nb_assert(msg::is_upstream<M> == up && msg::is_downstream<M> == !up, "a message answers to exactly its channel"); nb_assert(msg::is_create<M> == (ac == 0) && msg::is_read<M> == (ac == 1) && msg::is_update<M> == (ac == 2) && msg::is_delete<M> == (ac == 3), "a message answers to exactly its action");
}
constexpr msg::channel::upstream UP{}; constexpr msg::channel::downstream DN{};
constexpr msg::action::create CR{}; constexpr msg::action::read RD{}; constexpr msg::action::update UD{}; constexpr msg::action::delete_ DL{};
template <bool U, typename M> void uid_is(M const& m, all const& a) { nb_assert(msg::has_uid<M> == U, "has_uid tells whether there is a unique id"); if constexpr (U && msg::has_uid<M>) nb_assert(is(msg::get_uid(m), a.id), "the unique id is kept"); }
template <bool C, typename M> void conf_is(M const& m, bool c) { nb_assert(msg::has_is_confirmed<M> == C, "has_is_confirmed tells whether there is a flag"); if constexpr (C && msg::has_is_confirmed<M>) nb_assert(msg::is_confirmed(m) == c, "the confirmation flag is kept"); else nb_assert(!msg::is_confirmed(m), "without a flag nothing is confirmed"); }
template <typename M> void payload_is(M const& m, all const& a) { nb_assert(msg::has_payload<M>, "has_payload tells whether there is a payload"); nb_assert(is(msg::get_payload(m), a.p), "the payload is kept"); M c = m; auto p = msg::get_payload(std::move(c)); nb_assert(is(p, a.p) && is(msg::get_payload(m), a.p), "moving the payload out of a copy leaves the message alone"); M v = m; auto p1 = msg::get_payload(v); auto p2 = msg::get_payload(v); nb_assert(is(p1, a.p) & is(p2, a.p), "reading the payload leaves it there"); }
// everything a serialiser or another client gets to see of a message
template <typename M> void no_secret(M const& m) { nb_assert(!msg::has_private_payload<M>, "only an upstream create with a private payload has one"); nbdl::bind_sequence(m, [](auto const&... x) { nb_assert(((!std::is_same_v<std::decay_t<decltype(x)>, ex::secret>) && ...), "a private payload never travels downstream"); }); }
template <bool U, bool C> void downstream_all(all const& a, bool cf) {
  auto uid = [&] { if constexpr (U) return a.id; else return msg::no_uid; }(); auto conf = [&] { if constexpr (C) return cf; else return msg::no_is_confirmed; }();
  { auto m = msg::make_downstream_create(full(a), uid, a.p, conf); kind(m, DN, CR, false, 0); nb_assert(isPath(msg::get_path(m), a), "path"); uid_is<U>(m, a); payload_is(m, a); conf_is<C>(m, cf); no_secret(m); }
  { auto m = msg::make_downstream_update(full(a), uid, a.p, conf); kind(m, DN, UD, false, 2); nb_assert(isPath(msg::get_path(m), a), "path"); uid_is<U>(m, a); payload_is(m, a); conf_is<C>(m, cf); no_secret(m); }
  { auto m = msg::make_downstream_delete(full(a), uid, conf); kind(m, DN, DL, false, 3); nb_assert(isPath(msg::get_path(m), a), "path"); uid_is<U>(m, a); conf_is<C>(m, cf); nb_assert(!msg::has_payload<decltype(m)>, "has_payload tells whether there is a payload"); no_secret(m); }
  if constexpr (!C) { auto m = msg::make_downstream_read(full(a), uid, a.p); kind(m, DN, RD, false, 1); nb_assert(isPath(msg::get_path(m), a), "path"); uid_is<U>(m, a); payload_is(m, a); no_secret(m); }
}
template <typename D, bool U, bool C> void is_down(D const& d, all const& a, bool cf) { nb_assert(isPath(msg::get_path(d), a), "deriving a downstream message keeps the path"); uid_is<U>(d, a); conf_is<C>(d, cf); no_secret(d); }
template <bool U> void upstream_all(all const& a, bool cf) {
  auto uid = [&] { if constexpr (U) return a.id; else return msg::no_uid; }();
  { auto m = msg::make_upstream_read(full(a), uid); kind(m, UP, RD, true, 1); nb_assert(isPath(msg::get_path(m), a), "path"); uid_is<U>(m, a); no_secret(m); auto d = msg::to_downstream_read(m, a.p); kind(d, DN, RD, false, 1); nb_assert(isPath(msg::get_path(d), a), "path"); uid_is<U>(d, a); payload_is(d, a); no_secret(d); }
  { auto m = msg::make_upstream_update(full(a), uid, a.p); kind(m, UP, UD, true, 2); nb_assert(isPath(msg::get_path(m), a), "path"); uid_is<U>(m, a); payload_is(m, a); no_secret(m);
    { auto d = msg::to_downstream(m, cf); kind(d, DN, UD, false, 2); is_down<decltype(d), U, true>(d, a, cf); payload_is(d, a); } { auto d = msg::to_downstream(m, msg::no_is_confirmed); is_down<decltype(d), U, false>(d, a, cf); payload_is(d, a); } { auto d = msg::to_downstream(auto(m), true); is_down<decltype(d), U, true>(d, a, true); payload_is(d, a); } }
  { auto m = msg::make_upstream_delete(full(a), uid); kind(m, UP, DL, true, 3); nb_assert(isPath(msg::get_path(m), a), "path"); uid_is<U>(m, a); no_secret(m); { auto d = msg::to_downstream(m, cf); kind(d, DN, DL, false, 3); is_down<decltype(d), U, true>(d, a, cf); } { auto d = msg::to_downstream(m, msg::no_is_confirmed); is_down<decltype(d), U, false>(d, a, cf); } }
  // create: without a key, with a key to be filled in
  { auto m = msg::make_upstream_create(msg::make_create_path<K2>(parent(a)), uid, a.p); kind(m, UP, CR, true, 0); nb_assert(isParent(msg::get_path(m).parent_path, a), "parent path"); uid_is<U>(m, a); payload_is(m, a); no_secret(m);
    nb_assert(msg::requires_key_for_downstream<decltype(m)>, "a key must be supplied"); { auto d = msg::to_downstream_with_key(m, K2(a.k2)); kind(d, DN, CR, false, 0); is_down<decltype(d), U, false>(d, a, cf); payload_is(d, a); } { auto d = msg::to_downstream_with_key_confirmed(m, K2(a.k2)); is_down<decltype(d), U, true>(d, a, true); payload_is(d, a); } }
  { auto m = msg::make_upstream_create(msg::make_create_path<K2>(parent(a)), uid, a.p, a.q); kind(m, UP, CR, true, 0); nb_assert(isParent(msg::get_path(m).parent_path, a), "parent path"); uid_is<U>(m, a); payload_is(m, a);
    nb_assert(msg::has_private_payload<decltype(m)>, "has_private_payload"); { auto q1 = msg::get_private_payload(m); auto q2 = msg::get_private_payload(m); nb_assert(is(q1, a.q) & is(q2, a.q), "the private payload is the one given"); } { auto d = msg::to_downstream_with_key(m, K2(a.k2)); is_down<decltype(d), U, false>(d, a, cf); payload_is(d, a); } { auto d = msg::to_downstream_with_key_confirmed(auto(m), K2(a.k2)); is_down<decltype(d), U, true>(d, a, true); payload_is(d, a); } nb_assert(is(msg::get_private_payload(m), a.q) && is(msg::get_payload(m), a.p), "deriving leaves the message alone"); }
}
}
NB_ENTRY(upstream) { all a = any(); bool cf = nb_any<bool>("confirmed"); upstream_all<true>(a, cf); upstream_all<false>(a, cf); nb_cover("upstream"); }
NB_ENTRY(downstream) { all a = any(); bool cf = nb_any<bool>("confirmed"); downstream_all<true, true>(a, cf); downstream_all<true, false>(a, cf); downstream_all<false, true>(a, cf); downstream_all<false, false>(a, cf); nb_cover("downstream"); }
// keys known by unique id: the message's own id becomes the last key
NB_ENTRY(by_uid) {
  all a = any(); bool cf = nb_any<bool>("confirmed"); using UK = nbdl::unique_key<ex::item>; auto m = msg::make_upstream_create(msg::make_create_path<UK>(parent(a)), a.id, a.p, a.q);
  nb_assert(msg::is_path_normalizable<decltype(m)> && !msg::requires_key_for_downstream<decltype(m)>, "the unique id is the key"); auto n = msg::get_normalized_path(m); nb_assert((n[hana::size_c<0>].value == a.k1) & is(n[hana::size_c<1>].value, a.id), "the normalised path ends with the unique id");
  auto d = msg::to_downstream(m, cf); uid_is<true>(d, a); conf_is<true>(d, cf); payload_is(d, a); no_secret(d); auto dn = msg::get_normalized_path(d); nb_assert((dn[hana::size_c<0>].value == a.k1) & is(dn[hana::size_c<1>].value, a.id), "deriving keeps the path"); nb_assert(isParent(msg::get_path(d).parent_path, a), "deriving keeps the parent path"); 
  nb_assert(is(msg::get_private_payload(m), a.q), "private payload"); nb_cover("by-uid");
}
NB_ENTRY(binding) { // the components a serialiser sees, in order
  all a = any(); bool cf = nb_any<bool>("confirmed"); int n = 0;
  nbdl::bind_sequence(msg::make_downstream_create(full(a), a.id, a.p, cf), [&](auto const& p, nbdl::uid const& u, ex::item const& i, bool c) { n++; nb_assert(isPath(p, a) & is(u, a.id) & is(i, a.p) & (c == cf), "components in order"); });
  nbdl::bind_sequence(msg::make_upstream_create(msg::make_create_path<K2>(parent(a)), a.id, a.p, a.q), [&](auto const& p, nbdl::uid const& u, ex::item const& i, ex::secret const& q) { n++; nb_assert(isParent(p.parent_path, a) & is(u, a.id) & is(i, a.p) & is(q, a.q), "components in order"); });
  nbdl::bind_sequence(msg::make_downstream_delete(full(a), msg::no_uid, cf), [&](auto const& p, bool c) { n++; nb_assert(isPath(p, a) & (c == cf), "components in order"); });
  nbdl::bind_sequence(msg::make_upstream_read(full(a), a.id), [&](auto const& p, nbdl::uid const& u) { n++; nb_assert(isPath(p, a) & is(u, a.id), "components in order"); });
  nb_assert(n == 4, "each message binds once"); nb_cover("binding");
}
