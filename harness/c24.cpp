#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl.hpp>
#include <nbdl/map_store.hpp>
#include <string>
#include <vector>
using namespace boost::hana::literals;
namespace hana = boost::hana; namespace msg = nbdl::message;
namespace ec { struct root { int x; }; struct item { int n; std::string s; }; struct item2 { int n; }; struct single { int n; }; template <int I> struct pk { int value; }; struct only { }; struct consumer1; struct consumer2; struct rid { int v; }; }
namespace nbdl { NBDL_ENTITY(ec::root, x); NBDL_ENTITY(ec::item, n, s); NBDL_ENTITY(ec::item2, n); NBDL_ENTITY(ec::single, n); }
namespace {
using namespace ec;
using PA = hana::tuple<pk<1>, pk<2>>; using PB = hana::tuple<pk<1>, pk<3>>; using PI = hana::tuple<pk<1>, int>; using PO = hana::tuple<pk<1>, only>;
template <typename P> constexpr int no = std::is_same_v<P, PA> ? 0 : std::is_same_v<P, PB> ? 1 : std::is_same_v<P, PI> ? 2 : std::is_same_v<P, PO> ? 3 : 9;
int num(int i) { return i; } template <int I> int num(pk<I> k) { return k.value; } int num(only) { return -7; }
struct entry { int who, act, path; int k1, k2; int n; std::string s; bool has_payload; int id; bool flag; };
std::vector<entry> log_;
void pay(entry& e, item const& i) { e.n = i.n; e.s = i.s; } void pay(entry& e, item2 const& i) { e.n = i.n; } void pay(entry& e, single const& i) { e.n = i.n; } template <typename T> void pay(entry& e, T const&) { e.n = 12345; e.s = "?"; }
template <typename M> void heard(int who, M const& m) {
  entry e{who}; e.act = msg::is_create<M> ? 0 : msg::is_update<M> ? 1 : msg::is_delete<M> ? 2 : 3; nb_assert(msg::is_downstream<M>, "the echo goes downstream"); auto p = msg::get_path(m); e.path = no<decltype(p)>; e.id = -1; e.n = 0;
  if constexpr (no<decltype(p)> < 9) { e.k1 = num(p[hana::size_c<0>]); e.k2 = num(p[hana::size_c<1>]); } else if constexpr (requires { p.parent_path; }) { e.path = 3; e.k1 = num(p.parent_path[hana::size_c<0>]); e.k2 = -7; }
  e.has_payload = msg::has_payload<M>; if constexpr (msg::has_payload<M>) pay(e, msg::get_payload(m)); if constexpr (msg::has_uid<M>) e.id = msg::get_uid(m).v; e.flag = msg::has_is_confirmed<M>; log_.push_back(e);
}
template <typename Context, typename Tag> struct actor { using hana_tag = Tag; Context context; template <typename T> actor(nbdl::actor_initializer<Context, T>&& a) : context(a.context) { } };
}
namespace ec { struct consumer1 { template <typename C> using actor_impl = actor<C, consumer1>; }; struct consumer2 { template <typename C> using actor_impl = actor<C, consumer2>; }; }
namespace nbdl {
template <> struct send_downstream_message_impl<ec::consumer1> { template <typename A, typename M> static constexpr void apply(A&&, M const& m) { heard(1, m); } };
template <> struct send_downstream_message_impl<ec::consumer2> { template <typename A, typename M> static constexpr void apply(A&&, M const& m) { heard(2, m); } };
}
namespace {
struct def { static constexpr auto make_def() { using namespace nbdl_def; return Context(
  Producers(Producer(Name("p1"_s), Type<nbdl::echo_producer>, AccessPoint(Name(hana::type_c<void>), Entity<root>, PathKey<pk<1>>,
    AccessPoint(Name(hana::type_c<void>), Entity<item>, PathKey<pk<2>>, Store<nbdl::null_store>, Actions(Create(), Read(), Update(), Delete())),
    AccessPoint(Name(hana::type_c<void>), Entity<item2>, PathKey<pk<3>>, Store<nbdl::null_store>, Actions(Create(), Read(), Update(), Delete())),
    AccessPoint(Name(hana::type_c<void>), Entity<item2>, PathKey<int>, Store<nbdl::null_store>, Actions(Create(), Read(), Update(), Delete())),
    AccessPoint(Name(hana::type_c<void>), Entity<single>, PathKey<only>, Store<nbdl::null_store>, Actions(Create(), Read(), Update(), Delete()))))),
  Consumers(Consumer(Name("c1"_s), Type<consumer1>), Consumer(Name("c2"_s), Type<consumer2>))); } };
item any_pay(PA*, int n) { return {n, nb_string(nb_param("len", 2), "s")}; } template <typename P> item2 any_pay(P*, int n) { return {n}; } single any_pay(PO*, int n) { return {n}; }
template <typename K> K mk(int v) { if constexpr (std::is_empty_v<K>) return {}; else return K{v}; }
struct used { int path, k1, k2; };
template <typename P, typename C> void step(C& from, std::vector<used>& made, int i) {
  int a = nb_any<int>("parent"), b = nb_any<int>("key"), n = nb_any<int>("n"), id = nb_any<int>("uid"); nb_assume(id >= 0); auto p = any_pay((P*)nullptr, n); entry want{0}; pay(want, p); bool with_id = nb_choose(2, "with-uid"); using K = std::decay_t<decltype(std::declval<P>()[hana::size_c<1>])>; P path(pk<1>{a}, mk<K>(b)); int act = nb_choose(3, "action"); log_.clear();
  bool secret = act == 0 && nb_choose(2, "private"); auto go = [&](auto uid) { if (secret) nbdl::apply_message(from, msg::make_upstream_create(msg::make_create_path<K>(hana::make_tuple(pk<1>{a})), uid, p, std::string("private"))); else if (act == 0) nbdl::apply_message(from, msg::make_upstream_create(msg::make_create_path<K>(hana::make_tuple(pk<1>{a})), uid, p)); else if (act == 1) nbdl::apply_message(from, msg::make_upstream_update(path, uid, p)); else nbdl::apply_message(from, msg::make_upstream_delete(path, uid)); };
  if (with_id) go(rid{id}); else go(msg::no_uid);
  nb_assert(log_.size() == 2, "every request is answered once, to every consumer");
  for (int j = 0; j < 2; j++) { entry& e = log_[j]; nb_assert(e.who == j + 1 && e.act == act && e.path == no<P>, "the answer says what was asked for"); nb_assert((e.k1 == a) & (e.id == (with_id ? id : -1)) & !e.flag, "the answer carries the parent path and the unique id"); if (act < 2) nb_assert(e.has_payload && (e.n == want.n) & nb_streq(e.s, want.s), "the answer carries the payload"); else nb_assert(!e.has_payload, "a delete has no payload"); if (act) nb_assert(e.k2 == (std::is_empty_v<K> ? -7 : b), "the answer carries the path"); }
  if (act == 0) { nb_assert(log_[0].k2 == log_[1].k2, "every consumer gets the same key"); if (!std::is_empty_v<K>) for (auto& u : made) nb_assert(u.path != no<P> || u.k2 != log_[0].k2, "a created entity has a key of its own"); made.push_back({no<P>, a, log_[0].k2}); nb_cover("created"); } else nb_cover(act == 1 ? "updated" : "deleted");
}
}
NB_ENTRY(history) {
  auto ctx = nbdl::make_context<def>(); auto& c1 = ctx->template actor<1>().context; auto& c2 = ctx->template actor<2>().context; std::vector<used> made; unsigned steps = nb_param("steps", 2);
  for (unsigned i = 0; i < steps; i++) { auto& from = i % 2 ? c2 : c1; switch (nb_choose(4, "path")) { case 0: step<PA>(from, made, i); break; case 1: step<PB>(from, made, i); break; case 2: step<PI>(from, made, i); break; default: step<PO>(from, made, i); } }
  nb_cover("end");
}
// so many creations that a counter narrower than the key would wrap around
NB_ENTRY(many) {
  auto ctx = nbdl::make_context<def>(); auto& c1 = ctx->template actor<1>().context; unsigned n = nb_param("n", 300); int parent = nb_any<int>("parent"), v = nb_any<int>("n"); std::vector<int> keys[2];
  for (unsigned i = 0; i < n; i++) { log_.clear(); nbdl::apply_message(c1, msg::make_upstream_create(msg::make_create_path<pk<3>>(hana::make_tuple(pk<1>{parent})), msg::no_uid, item2{v})); nb_assert(log_.size() == 2, "every request is answered"); keys[0].push_back(log_[0].k2); log_.clear(); nbdl::apply_message(c1, msg::make_upstream_create(msg::make_create_path<int>(hana::make_tuple(pk<1>{parent})), msg::no_uid, item2{v})); nb_assert(log_.size() == 2, "every request is answered"); keys[1].push_back(log_[0].k2); }
  for (auto& k : keys) { std::sort(k.begin(), k.end()); for (unsigned i = 1; i < n; i++) nb_assert(k[i] != k[i - 1], "a created entity has a key of its own"); } nb_cover("many");
}
