#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/map_store.hpp>
#include <string>
#include <vector>
namespace hana = boost::hana; namespace msg = nbdl::message;
namespace mx { struct item { int n; std::string s; }; struct alike { unsigned v; bool operator==(alike const& o) const { return v == o.v; } }; template <typename T, int I> struct pk { T value; }; struct other { int x; }; }
template <> struct std::hash<mx::alike> { std::size_t operator()(mx::alike const&) const { return 7; } }; // every key in one bucket: only equality tells keys apart
namespace nbdl { NBDL_ENTITY(mx::item, n, s); template <typename T, int I> struct bind_sequence_impl<mx::pk<T, I>> { template <typename P, typename F> static constexpr auto apply(P const& p, F&& f) { return std::forward<F>(f)(p.value); } }; }
namespace boost::hana { template <typename T, int I> struct equal_impl<mx::pk<T, I>, mx::pk<T, I>> { template <typename A, typename B> static constexpr bool apply(A const& a, B const& b) { return a.value == b.value; } }; }
namespace {
using mx::item; using mx::pk; using mx::alike;
struct mdl { int kind = 0; item p; }; // 0 not in set, 1 unresolved, 2 entity, 3 not found
template <typename T> using path = hana::tuple<pk<T, 1>, pk<T, 2>>;
template <typename S, typename P> void look(S& s, P const& k, mdl const& m) {
  int n = 0, kind = -1; bool ok = true;
  auto f = hana::overload_linearly([&](nbdl::trigger_read) { n++; kind = 0; }, [&](nbdl::not_in_set) { n++; kind = 9; }, [&](nbdl::unresolved) { n++; kind = 1; }, [&](item const& i) { n++; kind = 2; ok = (i.n == m.p.n) & nb_streq(i.s, m.p.s); }, [&](nbdl::not_found) { n++; kind = 3; });
  nbdl::match(s, k, f); nb_assert(n == 1, "a lookup calls the handler once"); nb_assert(kind == m.kind, "a lookup finds what the messages left there"); nb_assert(ok, "a lookup finds the entity last given");
}
item any_item(int i) { char a[3] = {'n', char('0' + i), 0}, b[3] = {'s', char('0' + i), 0}; return {nb_any<int>(a), nb_string(nb_param("len", 1), b)}; }
// keys: the i-th key differs from all before it, the two components in any way; with fixed != 0 ordinary integers through the ordinary hash
alike part(alike*, int i, int c) { char a[4] = {'k', char('0' + i), char('a' + c), 0}; return {nb_any<unsigned>(a)}; }
int part(int*, int i, int c) { static const int t[][2] = {{1, 2}, {2, 1}, {1, 1}, {-1, 0}, {0, -1}, {2147483647, -2147483647 - 1}}; return t[(i + nb_param("from", 0)) % 6][c]; }
template <typename T> void history() {
  unsigned steps = nb_param("steps", 2); nbdl::map_store<path<T>, item> s; std::vector<path<T>> keys; std::vector<mdl> ref; std::vector<T> a, b;
  auto add = [&] { int i = keys.size(); T x = part((T*)nullptr, i, 0), y = part((T*)nullptr, i, 1); for (int j = 0; j < i; j++) nb_assume(!((a[j] == x) & (b[j] == y))); a.push_back(x); b.push_back(y); keys.push_back(path<T>(pk<T, 1>{x}, pk<T, 2>{y})); ref.push_back({}); };
  add();
  for (unsigned i = 0; i < steps; i++) {
    unsigned long k = nb_choose(keys.size(), "key"); if (k + 1 == keys.size()) add(); path<T> const p = keys[k]; mdl& m = ref[k]; item e = any_item(i); bool cf = nb_any<bool>("confirmed"), r = false, want = false;
    switch (nb_choose(9, "message")) {
      case 0: r = nbdl::apply_message(s, msg::make_upstream_read(p, 1)); if (m.kind == 0) m.kind = 1; break;
      case 1: r = nbdl::apply_message(s, msg::make_upstream_create(msg::make_create_path<pk<T, 2>>(hana::make_tuple(pk<T, 1>{a[k]})), 1, e)); break;
      case 2: r = nbdl::apply_message(s, msg::make_upstream_update(p, 1, e)); break;
      case 3: r = nbdl::apply_message(s, msg::make_upstream_delete(p, 1)); break;
      case 4: r = nbdl::apply_message(s, msg::make_downstream_create(p, 1, e, cf)); m = {2, e}; want = true; break;
      case 5: r = nbdl::apply_message(s, msg::make_downstream_update(p, 1, e, cf)); m = {2, e}; want = true; break;
      case 6: want = m.kind < 2; r = nbdl::apply_message(s, msg::make_downstream_read(p, 1, e)); if (want) m = {2, e}; break;
      case 7: want = m.kind < 2; r = nbdl::apply_message(s, msg::make_downstream_read(p, 1, nbdl::not_found{})); if (want) m = {3, {}}; break;
      default: r = nbdl::apply_message(s, msg::make_downstream_delete(p, 1, cf)); m = {}; want = true;
    }
    nb_assert(r == want, "applying reports whether listeners must be told"); for (unsigned j = 0; j < keys.size(); j++) look(s, keys[j], ref[j]);
  }
  for (unsigned j = 0; j < keys.size(); j++) look(std::as_const(s), keys[j], ref[j]); auto c = s; for (unsigned j = 0; j < keys.size(); j++) look(c, keys[j], ref[j]);
  static const char* names[] = {"end-absent", "end-unresolved", "end-entity", "end-not-found"}; nb_cover(names[ref[0].kind]); if (keys.size() > 2) nb_cover("two-keys");
}
// the plain map store: entities without placeholders
void basic() {
  nbdl::basic_map_store<unsigned, item> s; unsigned steps = nb_param("steps", 2), keys[3] = {}; bool has[3] = {}; item val[3]; int n = 0;
  for (unsigned i = 0; i < steps; i++) {
    unsigned k = nb_choose(3, "key"); keys[k] = k * 0x80000001u; bool cf = nb_any<bool>("confirmed"); item e = any_item(i);
    switch (nb_choose(3, "message")) { case 0: nb_assert(nbdl::apply_message(s, msg::make_downstream_update(keys[k], msg::no_uid, e, cf)), "an update changes the state"); has[k] = true; val[k] = e; break; case 1: nb_assert(nbdl::apply_message(s, msg::make_downstream_create(keys[k], msg::no_uid, e, cf)), "a create changes the state"); has[k] = true; val[k] = e; break; default: nb_assert(nbdl::apply_message(s, msg::make_downstream_delete(keys[k], msg::no_uid, cf)), "a delete changes the state"); has[k] = false; }
    for (unsigned j = 0; j < 3; j++) { n = 0; bool ok = false; nbdl::match(s, j * 0x80000001u, hana::overload_linearly([&](nbdl::not_in_set) { n++; ok = !has[j]; }, [&](item const& v) { n++; ok = has[j] && ((v.n == val[j].n) & nb_streq(v.s, val[j].s)); }, [&](auto const&) { n = 9; })); nb_assert(n == 1 && ok, "a lookup finds what the messages left there"); }
  }
  nb_cover("basic");
}
}
NB_ENTRY(plain) { basic(); }
NB_ENTRY(any_keys) { history<alike>(); }
NB_ENTRY(ordinary_keys) { history<int>(); }
