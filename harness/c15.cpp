#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl.hpp>
#include <nbdl/map_store.hpp>
#include <vector>
using namespace boost::hana::literals;
namespace hana = boost::hana; namespace msg = nbdl::message;
namespace cx {
struct root1 { int x; }; struct root2 { int x; }; struct item { int n; int m; }; struct item2 { int n; }; struct sum { int n; };
struct alike { unsigned v; bool operator==(alike const& o) const { return v == o.v; } }; template <int I> struct pk { alike value; };
struct producer1; struct producer2; struct consumer1; struct consumer2; struct screen1; struct screen2; struct listen_store { };
}
template <> struct std::hash<cx::alike> { std::size_t operator()(cx::alike const&) const { return 7; } };
namespace nbdl { NBDL_ENTITY(cx::root1, x); NBDL_ENTITY(cx::root2, x); NBDL_ENTITY(cx::item, n, m); NBDL_ENTITY(cx::item2, n); NBDL_ENTITY(cx::sum, n); template <int I> struct bind_sequence_impl<cx::pk<I>> { template <typename P, typename F> static constexpr auto apply(P const& p, F&& f) { return std::forward<F>(f)(p.value); } }; }
namespace boost::hana { template <int I> struct equal_impl<cx::pk<I>, cx::pk<I>> { template <typename A, typename B> static constexpr bool apply(A const& a, B const& b) { return a.value == b.value; } }; }
namespace {
using namespace cx;
using PA = hana::tuple<pk<1>, pk<2>>; using PB = hana::tuple<pk<3>, pk<2>>; using PC = hana::tuple<pk<3>, pk<4>>; using PL = hana::tuple<pk<3>, pk<5>>; // stores of two producers; the same entity under both roots; a store that listens to PB
template <typename P> constexpr int no = std::is_same_v<P, PA> ? 0 : std::is_same_v<P, PB> ? 1 : std::is_same_v<P, PC> ? 2 : std::is_same_v<P, PL> ? 3 : 9;
enum { UP_READ, UP_CREATE, UP_UPDATE, UP_DELETE, DN_READ, DN_CREATE, DN_UPDATE, DN_DELETE, NOTIFY, FOREIGN };
struct entry { int who, what, path; unsigned k1, k2; int kind; int n, m; int id; }; // kind: 0 no payload, 2 entity, 3 not found
std::vector<entry> log_; bool at_once = false, store_says = false; item answer;
void pay(entry& e, item const& i) { e.kind = 2; e.n = i.n; e.m = i.m; } void pay(entry& e, item2 const& i) { e.kind = 2; e.n = i.n; e.m = 0; } void pay(entry& e, sum const& i) { e.kind = 2; e.n = i.n; e.m = 0; } void pay(entry& e, nbdl::not_found) { e.kind = 3; } template <typename T> void pay(entry& e, T const&) { e.kind = 8; }
template <typename M> entry entry_of(int who, M const& m) {
  entry e{who}; using P = std::decay_t<decltype(msg::get_path(m))>; constexpr bool up = msg::is_upstream<M>; e.what = (up ? 0 : 4) + (msg::is_read<M> ? 0 : msg::is_create<M> ? 1 : msg::is_update<M> ? 2 : 3);
  if constexpr (up && msg::is_create<M>) { using F = decltype(hana::append(msg::get_path(m).parent_path, std::declval<typename P::key>())); e.path = no<F>; e.k1 = msg::get_path(m).parent_path[hana::size_c<0>].value.v; e.k2 = 0; }
  else { e.path = no<P>; e.k1 = msg::get_path(m)[hana::size_c<0>].value.v; e.k2 = msg::get_path(m)[hana::size_c<1>].value.v; }
  if constexpr (msg::has_payload<M>) pay(e, msg::get_payload(m)); e.id = -1; if constexpr (msg::has_uid<M>) e.id = msg::get_uid(m); return e;
}
struct mdl { int kind = 0; int n = 0, m = 0; }; // what the store must hold: 0 absent, 1 unresolved, 2 entity, 3 not found
template <typename C, typename P> mdl peek(C& c, P const& p) { mdl r{-1}; nbdl::match(c, p, hana::overload_linearly([&](nbdl::unresolved) { r = {1}; }, [&](nbdl::not_found) { r = {3}; }, [&](item const& i) { r = {2, i.n, i.m}; }, [&](item2 const& i) { r = {2, i.n, 0}; }, [&](auto const&) { r = {9}; })); return r; }
// at the time a consumer hears of a new value the store already holds it
template <typename C, typename M> void applied(C& c, M const& m) {
  if constexpr (msg::is_downstream<M> && (msg::is_create<M> || msg::is_update<M>) && no<std::decay_t<decltype(msg::get_path(m))>> < 3) { entry e = entry_of(0, m); mdl h = peek(c, msg::get_path(m)); nb_assert((h.kind == 2) & (h.n == e.n) & (h.m == e.m), "a message is applied before anyone is told"); }
}
template <typename Context, int I, bool Screen> struct actor { using hana_tag = std::tuple_element_t<I, std::tuple<producer1, producer2, consumer1, consumer2, screen1, screen2>>; Context context; template <typename T> actor(nbdl::actor_initializer<Context, T>&& a) : context(a.context) { } };
}
namespace cx {
struct producer1 { template <typename C> using actor_impl = actor<C, 0, false>; }; struct producer2 { template <typename C> using actor_impl = actor<C, 1, false>; };
struct consumer1 { template <typename C> using actor_impl = actor<C, 2, false>; }; struct consumer2 { template <typename C> using actor_impl = actor<C, 3, false>; };
struct screen1 { template <typename C> using actor_impl = actor<C, 4, true>; }; struct screen2 { template <typename C> using actor_impl = actor<C, 5, true>; };
}
namespace nbdl {
#define NB_P(tag, i) template <> struct send_upstream_message_impl<tag> { template <typename A, typename M> static constexpr void apply(A&&, M const& m) { log_.push_back(entry_of(i, m)); } };
NB_P(cx::producer2, 1)
// producer 1 can answer a read while it is being asked
template <> struct send_upstream_message_impl<cx::producer1> { template <typename A, typename M> static constexpr void apply(A&& a, M const& m) { log_.push_back(entry_of(0, m)); if constexpr (msg::is_read<M>) { static bool asking = false; nb_assert(!asking, "a read is asked for again while it is being asked for"); asking = true; auto c = a.context; nb_assert(peek(c, msg::get_path(m)).kind == 1, "a read is pending in the store before the producer is asked"); asking = false; } if constexpr (msg::is_read<M>) if (at_once) { auto c = a.context; nbdl::apply_message(c, msg::to_downstream_read(m, cx::item{answer.n, answer.m})); } } };
#define NB_C(tag, i) template <> struct send_downstream_message_impl<tag> { template <typename A, typename M> static constexpr void apply(A&& a, M const& m) { log_.push_back(entry_of(i, m)); applied(a.context, m); } };
NB_C(cx::consumer1, 2) NB_C(cx::consumer2, 3)
#define NB_S(tag, i) template <> struct notify_state_change_impl<tag> { template <typename A, typename P> static constexpr void apply(A&&, P const& p) { log_.push_back({i, NOTIFY, no<P>, p[hana::size_c<0>].value.v, p[hana::size_c<1>].value.v, 0, 0, 0, -1}); } };
NB_S(cx::screen1, 4) NB_S(cx::screen2, 5)
template <> struct apply_message_impl<cx::listen_store> { template <typename S, typename M> static constexpr bool apply(S&&, M const& m) { log_.push_back(entry_of(7, m)); return store_says; } };
template <> struct match_impl<cx::listen_store> { template <typename S, typename K, typename F> static constexpr void apply(S&&, K&&, F&& f) { std::forward<F>(f)(cx::sum{4}); } };
template <> struct apply_foreign_message_impl<cx::listen_store> { template <typename S, typename M, typename F> static constexpr void apply(S&&, M const& m, F&& mark) { entry e = entry_of(6, m); log_.push_back(e); if (e.kind != 2 || (e.n & 1)) mark(PL(pk<3>{{e.k1}}, pk<5>{{e.k2}})); } };
}
namespace {
struct def { static constexpr auto make_def() { using namespace nbdl_def; using N = nbdl::map_store_tag; return Context(
  Producers(
    Producer(Name("p1"_s), Type<producer1>, AccessPoint(Name(hana::type_c<void>), Entity<root1>, PathKey<pk<1>>, AccessPoint(Name(hana::type_c<void>), Entity<item>, PathKey<pk<2>>, Store<N>, Actions(Create(), Read(), Update(), Delete())))),
    Producer(Name("p2"_s), Type<producer2>, AccessPoints(
      AccessPoint(Name(hana::type_c<void>), Entity<root2>, PathKey<pk<3>>, AccessPoint(Name(hana::type_c<void>), Entity<item>, PathKey<pk<2>>, Store<N>, Actions(Create(), Read(), Update(), Delete()))),
      AccessPoint(Name(hana::type_c<void>), Entity<root2>, PathKey<pk<3>>, AccessPoint(Name(hana::type_c<void>), Entity<item2>, PathKey<pk<4>>, Store<N>, Actions(Create(), Read(), Update(), Delete()))),
      AccessPoint(Name(hana::type_c<void>), Entity<root2>, PathKey<pk<3>>, AccessPoint(Name(hana::type_c<void>), Entity<sum>, PathKey<pk<5>>, Store<listen_store>, Actions(Create(), Read(), Update(), Delete()), ListenPaths(Path<pk<3>, pk<2>>)))))),
  Consumers(Consumer(Name("c1"_s), Type<consumer1>), Consumer(Name("c2"_s), Type<consumer2>), Consumer(Name("s1"_s), Type<screen1>), Consumer(Name("s2"_s), Type<screen2>))); } };
template <typename P, typename F> void with_path(P*, unsigned a, unsigned b, F f) { using A = std::decay_t<decltype(std::declval<P>()[hana::size_c<0>])>; using B = std::decay_t<decltype(std::declval<P>()[hana::size_c<1>])>; f(P(A{{a}}, B{{b}})); }
item any_payload(PA*, int n, int m) { return {n, m}; } item any_payload(PB*, int n, int m) { return {n, m}; } item2 any_payload(PC*, int n, int) { return {n}; }
struct state { unsigned a[3], b[3]; int keys = 0; mdl at[3][4]; };
// one message, sent by one actor; want: everything that must happen, in order
template <typename P, typename C> void step(C& from, state& s, int k, int i) {
  unsigned a = s.a[k], b = s.b[k]; constexpr int p = no<P>; constexpr int owner = p == 0 ? 0 : 1; mdl& h = s.at[p][k]; char nn[3] = {'n', char('0' + i), 0}, mm[3] = {'m', char('0' + i), 0}; auto pay = any_payload((P*)nullptr, nb_any<int>(nn), nb_any<int>(mm)); entry pe{}; ::pay(pe, pay); std::vector<entry> want; bool listened = p == 1;
  auto notify = [&](int pp, unsigned x, unsigned y) { want.push_back({4, NOTIFY, pp, x, y, 0, 0, 0, -1}); want.push_back({5, NOTIFY, pp, x, y, 0, 0, 0, -1}); };
  auto consumers = [&](int what, mdl c, int id) { want.push_back({2, what, p, a, b, c.kind, c.n, c.m, id}); want.push_back({3, what, p, a, b, c.kind, c.n, c.m, id}); };
  mdl pm{2, pe.n, pe.m}; int what = -1; bool with_payload = false; log_.clear();
  with_path((P*)nullptr, a, b, [&](P const& path) {
    switch (nb_choose(10, "message")) {
      case 0: what = UP_READ; if (h.kind == 0) { want.push_back({owner, UP_READ, p, a, b, 0, 0, 0, 7}); h = {1}; nb_cover("asked"); if (p == 0 && at_once) { h = {2, answer.n, answer.m}; notify(p, a, b); consumers(DN_READ, h, 7); nb_cover("at-once"); } } else if (h.kind > 1) { consumers(DN_READ, h, 7); nb_cover("answered-from-store"); } nbdl::apply_message(from, msg::make_upstream_read(path, 7)); break;
      case 1: what = UP_CREATE; want.push_back({owner, UP_CREATE, p, a, 0, 2, pm.n, pm.m, 7}); listened = false; { using B = std::decay_t<decltype(path[hana::size_c<1>])>; nbdl::apply_message(from, msg::make_upstream_create(msg::make_create_path<B>(hana::make_tuple(path[hana::size_c<0>])), 7, pay)); } break;
      case 2: what = UP_UPDATE; with_payload = true; want.push_back({owner, UP_UPDATE, p, a, b, 2, pm.n, pm.m, 7}); nbdl::apply_message(from, msg::make_upstream_update(path, 7, pay)); break;
      case 3: what = UP_DELETE; want.push_back({owner, UP_DELETE, p, a, b, 0, 0, 0, 7}); nbdl::apply_message(from, msg::make_upstream_delete(path, 7)); break;
      case 4: what = DN_READ; with_payload = true; if (h.kind < 2) { h = pm; notify(p, a, b); } consumers(DN_READ, pm, 8); nbdl::apply_message(from, msg::make_downstream_read(path, 8, pay)); break;
      case 5: what = DN_READ; if (h.kind < 2) { h = {3}; notify(p, a, b); } consumers(DN_READ, {3}, 8); nbdl::apply_message(from, msg::make_downstream_read(path, 8, nbdl::not_found{})); break;
      case 6: what = DN_CREATE; with_payload = true; h = pm; notify(p, a, b); consumers(DN_CREATE, pm, 8); nbdl::apply_message(from, msg::make_downstream_create(path, 8, pay, msg::no_is_confirmed)); break;
      case 7: what = DN_UPDATE; with_payload = true; h = pm; notify(p, a, b); consumers(DN_UPDATE, pm, 8); nbdl::apply_message(from, msg::make_downstream_update(path, 8, pay, true)); break;
      case 8: what = DN_DELETE; h = {}; notify(p, a, b); consumers(DN_DELETE, {}, -1); nbdl::apply_message(from, msg::make_downstream_delete(path, msg::no_uid, msg::no_is_confirmed)); break;
      default: { mdl was = h; if (h.kind == 0) { want.push_back({owner, UP_READ, p, a, b, 0, 0, 0, -1}); h = {1}; what = UP_READ; } else listened = false; // a lookup
        mdl seen = h; if (was.kind == 0 && p == 0 && at_once) { h = {2, answer.n, answer.m}; notify(p, a, b); consumers(DN_READ, h, -1); }
        mdl g = peek(from, path); if (was.kind == 0) nb_cover("lookup-asks"); nb_assert((g.kind == seen.kind) & (g.n == seen.n) & (g.m == seen.m), "a lookup sees what the store holds"); }
    }
  });
  if (listened) { int id = what == DN_DELETE || (what == UP_READ && want.size() && want[0].id == -1) ? -1 : what < 4 ? 7 : 8; want.push_back({6, what, p, a, b, with_payload ? 2 : what == DN_READ ? 3 : 0, with_payload ? pm.n : 0, with_payload ? pm.m : 0, id}); if (!with_payload || (pm.n & 1)) notify(3, a, b); nb_cover("listened"); }
  nb_assert(log_.size() == want.size(), "exactly the actors concerned are told, once each");
  for (unsigned j = 0; j < want.size(); j++) { entry& g = log_[j]; entry& w = want[j]; nb_assert(g.who == w.who && g.what == w.what && g.path == w.path && g.kind == w.kind && g.id == w.id, "who is told what, in order"); nb_assert((g.k1 == w.k1) & (g.k2 == w.k2), "the path told"); if (w.kind == 2) nb_assert((g.n == w.n) & (g.m == w.m), "the payload told"); }
}
// a store of the user's own that says of every message, whichever way it goes, whether its state changed
template <typename C> void own_store(C& from, state& s, int k) {
  unsigned a = s.a[k], b = s.b[k]; PL path(pk<3>{{a}}, pk<5>{{b}}); sum pay{nb_any<int>("own")}; store_says = nb_choose(2, "changed"); log_.clear(); int what = nb_choose(6, "message"), kind = 0, id = 7; unsigned k2 = b; std::vector<entry> want;
  switch (what) {
    case 0: what = UP_CREATE; kind = 2; k2 = 0; nbdl::apply_message(from, msg::make_upstream_create(msg::make_create_path<pk<5>>(hana::make_tuple(pk<3>{{a}})), 7, pay)); break;
    case 1: what = UP_UPDATE; kind = 2; nbdl::apply_message(from, msg::make_upstream_update(path, 7, pay)); break;
    case 2: what = UP_DELETE; nbdl::apply_message(from, msg::make_upstream_delete(path, 7)); break;
    case 3: what = DN_CREATE; kind = 2; nbdl::apply_message(from, msg::make_downstream_create(path, 7, pay, true)); break;
    case 4: what = DN_UPDATE; kind = 2; nbdl::apply_message(from, msg::make_downstream_update(path, 7, pay, msg::no_is_confirmed)); break;
    default: what = DN_DELETE; id = -1; nbdl::apply_message(from, msg::make_downstream_delete(path, msg::no_uid, true)); }
  auto tell = [&](int who) { want.push_back({who, what, 3, a, k2, kind, kind ? pay.n : 0, 0, id}); };
  if (what == UP_CREATE) tell(1); // a path without a key reaches the producer only
  else { tell(7); if (store_says) for (int w : {4, 5}) want.push_back({w, NOTIFY, 3, a, b, 0, 0, 0, -1}); if (what < 4) tell(1); else { tell(2); tell(3); } }
  nb_assert(log_.size() == want.size(), "exactly the actors concerned are told, once each");
  for (unsigned j = 0; j < want.size(); j++) { entry& g = log_[j]; entry& w = want[j]; nb_assert(g.who == w.who && g.what == w.what && g.path == w.path && g.kind == w.kind && g.id == w.id, "who is told what, in order"); nb_assert((g.k1 == w.k1) & (g.k2 == w.k2) & (g.n == w.n), "what is told"); }
  nb_cover("own-store");
}
template <typename P, typename C> void compare(C& c, state& s) { for (int k = 0; k < s.keys; k++) if (s.at[no<P>][k].kind) with_path((P*)nullptr, s.a[k], s.b[k], [&](P const& path) { mdl g = peek(c, path), w = s.at[no<P>][k]; nb_assert((g.kind == w.kind) & (g.n == w.n) & (g.m == w.m), "every store holds what was applied to it, no more"); }); }
}
NB_ENTRY(history) {
  { auto ctx = nbdl::make_context<def>(); auto& p1 = ctx->template actor<0>().context; auto& p2 = ctx->template actor<1>().context; auto& c1 = ctx->template actor<2>().context; auto& s1 = ctx->template actor<4>().context;
  at_once = nb_param("at_once", 0); answer = {nb_any<int>("answer"), nb_any<int>("answer2")}; static state s; unsigned steps = nb_param("steps", 2); unsigned sender = nb_param("sender", 0);
  auto add = [&] { int i = s.keys++; char x[3] = {'a', char('0' + i), 0}, y[3] = {'b', char('0' + i), 0}; s.a[i] = nb_any<unsigned>(x); s.b[i] = nb_any<unsigned>(y); for (int j = 0; j < i; j++) nb_assume(!((s.a[i] == s.a[j]) & (s.b[i] == s.b[j]))); };
  log_.reserve(16); add();
  for (unsigned i = 0; i < steps; i++) {
    int k = nb_choose(s.keys < 2 ? s.keys : 2, "key"); if (k + 1 == s.keys) add(); auto& from = (i + sender) % 4 == 0 ? c1 : (i + sender) % 4 == 1 ? p2 : (i + sender) % 4 == 2 ? s1 : p1;
    unsigned only = nb_param("only", 9); switch (only < 4 ? only : nb_choose(4, "path")) { case 0: step<PA>(from, s, k, i); break; case 1: step<PB>(from, s, k, i); break; case 2: step<PC>(from, s, k, i); break; default: own_store(from, s, k); }
  }
  log_.clear(); compare<PA>(c1, s); compare<PB>(c1, s); compare<PC>(c1, s); nb_assert(log_.empty(), "looking at resolved or pending entries tells nobody"); }
  log_.shrink_to_fit(); nb_cover("end");
}
