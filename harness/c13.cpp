#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/delta.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/get.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/match.hpp>
#include <string>
#include <vector>
namespace hana = boost::hana; namespace msg = nbdl::message;
namespace lv { struct two { int a; int b; }; struct rec { int a; std::string s; bool f; }; }
namespace nbdl { NBDL_ENTITY(lv::two, a, b); NBDL_ENTITY(lv::rec, a, s, f); }
namespace {
using lv::two; using lv::rec;
bool same(two const& x, two const& y) { return (x.a == y.a) & (x.b == y.b); }
bool same(rec const& x, rec const& y) { return (x.a == y.a) & nb_streq(x.s, y.s) & (x.f == y.f); }
std::string nm(char c, int i) { return {c, char('0' + i)}; }
two any(two*, int i) { return {nb_any<int>(nm('a', i).c_str()), nb_any<int>(nm('b', i).c_str())}; }
rec any(rec*, int i) { return {nb_any<int>(nm('a', i).c_str()), nb_string(nb_param("exact", 0) ? nb_param("len", 1) : nb_choose(nb_param("len", 1) + 1, "length"), nm('s', i).c_str()), nb_any<bool>(nm('f', i).c_str())}; }
// what one change says: the members it sets and their values
template <typename E> struct change { E v; unsigned set; };
void put(two& x, change<two> const& c) { if (c.set & 1) x.a = c.v.a; if (c.set & 2) x.b = c.v.b; }
void put(rec& x, change<rec> const& c) { if (c.set & 1) x.a = c.v.a; if (c.set & 2) x.s = c.v.s; if (c.set & 4) x.f = c.v.f; }
nbdl::delta<two> delta_of(change<two> const& c) { two o = c.v; if (c.set & 1) o.a = ~o.a; if (c.set & 2) o.b = ~o.b; return nbdl::make_delta<nbdl::delta_tag>(c.v, o); }
nbdl::delta<rec> delta_of(change<rec> const& c) { rec o = c.v; if (c.set & 1) o.a = ~o.a; if (c.set & 2) o.s += '!'; if (c.set & 4) o.f = !o.f; return nbdl::make_delta<nbdl::delta_tag>(c.v, o); }
nbdl::uid id(int i) { nbdl::uid u{}; auto* p = &*u.begin(); for (int j = 0; j < 16; j++) p[j] = 0; p[(i * 5) % 16] = 1 + i; return u; }
template <typename E> using message_t = decltype(msg::make_upstream_update(hana::make_tuple(), id(0), nbdl::delta<E>{}));
template <typename S, typename M> void send(S& s, M&& m, bool changed) {
  if constexpr (std::is_void_v<decltype(nbdl::apply_message(s, std::forward<M>(m)))>) nb_fail("applying reports whether the displayed value changed");
  else { bool r = nbdl::apply_message(s, std::forward<M>(m)); nb_assert(r == changed, "applying reports whether the displayed value changed"); }
}
template <typename S, typename E> void shows(S& s, E const& want, const char* what) { nb_assert(same(nbdl::get(s), want), what); int n = 0; nbdl::match(s, [&](E const& v) { n++; nb_assert(same(v, want), what); }); nb_assert(n == 1, "matching calls back once"); }
// the reference keeps the whole history: what was confirmed, in order, and what is displayed
template <typename E, unsigned MEMBERS> void history() {
  unsigned steps = nb_param("steps", 3); E x = any((E*)nullptr, 0); nbdl::local_version<E> s(x); E confirmed = x, shown = x; struct sent { int id; message_t<E> m; change<E> c; }; std::vector<sent> out; int next = 0;
  for (unsigned i = 1; i <= steps; i++) {
    unsigned long op = nb_choose(2 + out.size(), "event"); 
    if (op < 2) {
      change<E> c{any((E*)nullptr, i), nb_param("single", 0) ? 1u << nb_choose(MEMBERS, "member") : (unsigned)nb_choose(1u << MEMBERS, "members")}; auto m = msg::make_upstream_update(hana::make_tuple(), id(next), delta_of(c)); E before = shown; put(shown, c);
      if (op == 0) { out.push_back({next, m, c}); send(s, m, !same(before, shown)); shows(s, shown, "a local change shows at once"); } // my change
      else { put(confirmed, c); send(s, msg::to_downstream_confirmed(m), !same(before, shown)); shows(s, shown, "a change confirmed for someone else shows at once"); }
      next++;
    } else { // one of mine is confirmed, in any order
      sent o = out[op - 2]; out.erase(out.begin() + (op - 2)); put(confirmed, o.c); E before = shown; if (out.empty()) shown = confirmed;
      send(s, msg::to_downstream_confirmed(o.m), !same(before, shown)); if (!out.empty()) { shows(s, shown, "a confirmation reverts nothing while other changes are outstanding"); nb_cover("still-outstanding"); } else nb_cover("settled");
    }
    if (out.empty()) shows(s, confirmed, "with nothing outstanding the displayed value is the confirmed one"); else nb_cover("outstanding");
  }
}
}
NB_ENTRY(two_members) { history<two, 2>(); }
NB_ENTRY(text_member) { history<rec, 2>(); }
NB_ENTRY(three_members) { history<rec, 3>(); }
