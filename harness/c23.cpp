#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl.hpp>
#include <nbdl/variant_holder.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/detail/match_if.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/ui_helper/match_branch.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/strong_alias.hpp>
#include <nbdl/store_range.hpp>
namespace hana = boost::hana; namespace us = nbdl::ui_spec; namespace uh = nbdl::ui_helper; using namespace hana::literals;
namespace mx {
struct first { int v; }; struct last { int v; };
struct person { int age; hana::tuple<first, last> name; };
struct account { int id; nbdl::optional<person> who; };
using account_state = nbdl::variant<nbdl::not_found, account>;
struct kA {}; struct kB {}; struct kC {}; struct kD {};
}
namespace nbdl { NBDL_ENTITY(mx::person, age, name); NBDL_ENTITY(mx::account, id, who); }
namespace {
using namespace mx;
int any(const char* n) { return nb_any<int>(n); }
// what a handler saw: how often it was called, with a value of which type, at which address
struct seen { int calls = 0; void const* at = nullptr; int kind = 0; };
template <typename T> constexpr int kind_of = std::is_same_v<T, int> ? 1 : std::is_same_v<T, person> ? 2 : std::is_same_v<T, account> ? 3 : std::is_same_v<T, nbdl::unresolved> ? 4 : std::is_same_v<T, nbdl::not_found> ? 5 : std::is_same_v<T, nbdl::not_in_set> ? 6 : std::is_same_v<T, nbdl::nothing> ? 7 : std::is_same_v<T, first> ? 8 : std::is_same_v<T, last> ? 9 : std::is_same_v<T, long> ? 10 : std::is_same_v<T, std::string> ? 11 : 12;
auto see(seen& s) { return [&s](auto&& x) { using T = std::decay_t<decltype(x)>; ++s.calls; s.kind = kind_of<T>; s.at = std::addressof(x); }; }
void once(seen const& s, int kind, void const* at, const char* what) { nb_assert(s.calls == 1, what); nb_assert(s.kind == kind, what); if (at) nb_assert(s.at == at, what); }
account make_account() { account a{any("id"), nbdl::nothing{}}; if (nb_choose(2, "who")) a.who = person{any("age"), hana::make_tuple(first{any("f")}, last{any("l")})}; return a; }
account_state make_state() { unsigned c = nb_choose(3, "state"); account_state s{}; if (c == 1) s = nbdl::not_found{}; if (c == 2) s = make_account(); return s; }
person* person_of(account& a) { return std::get_if<person>(&a.who.value_); } account* account_of(account_state& a) { return std::get_if<account>(&a.value_); }
}
NB_ENTRY(plain) {
  int x = any("x"); std::string t = nb_string(nb_choose(3, "n"), "t"), want = t; seen s; nbdl::match(x, see(s)); once(s, 1, &x, "a value that is no store is matched as it is");
  s = {}; nbdl::match(std::as_const(t), see(s)); once(s, 11, &t, "a value that is no store is matched as it is"); std::string got; nbdl::match(std::move(t), [&](std::string&& v) { got = std::move(v); }); nb_assert(got == want, "an rvalue is handed on as an rvalue");
  int wrote = any("w"); nbdl::match(x, [&](int& v) { v = wrote; }); nb_assert(x == wrote, "a mutable value is handed on for writing");
  std::reference_wrapper<int> r{x}; seen p; nbdl::match_path(x, hana::make_tuple(), see(p)); once(p, 1, &x, "the empty path leads to the value itself"); nb_cover("plain");
}
NB_ENTRY(products) {
  seen s; auto m = hana::make_map(hana::make_pair(hana::type_c<kA>, any("a")), hana::make_pair(hana::type_c<kB>, person{any("age"), hana::make_tuple(first{any("f")}, last{any("l")})}), hana::make_pair(hana::type_c<kC>, any("c")));
  nbdl::match(m, hana::type_c<kA>, see(s)); once(s, 1, &m[hana::type_c<kA>], "a map yields the element of the key"); s = {}; nbdl::match(m, hana::type_c<kC>, see(s)); once(s, 1, &m[hana::type_c<kC>], "a map yields the element of the key");
  person& p = m[hana::type_c<kB>]; s = {}; nbdl::match(p, "age"_s, see(s)); once(s, 1, &p.age, "an entity yields the member"); s = {}; nbdl::match(p.name, hana::type_c<last>, see(s)); once(s, 9, &hana::at_c<1>(p.name), "a tuple yields the element of the type");
  auto q = hana::make_pair(first{any("q")}, last{any("r")}); s = {}; nbdl::match(q, hana::second, see(s)); once(s, 9, &hana::second(q), "a pair yields its second"); s = {}; nbdl::match(q, hana::first, see(s)); once(s, 8, &hana::first(q), "a pair yields its first");
  nb_assert(&nbdl::get(p, "age"_s) == &p.age && &nbdl::get_path(m, hana::make_tuple(hana::type_c<kB>, "name"_s, hana::type_c<first>)) == &hana::at_c<0>(p.name), "get and get_path refer to the stored value");
  s = {}; auto rm = std::ref(m); nbdl::match(rm, hana::type_c<kA>, see(s)); once(s, 1, &m[hana::type_c<kA>], "a reference to a store stands for the store");
  s = {}; nbdl::match_path(m, hana::make_tuple(hana::type_c<kB>, "name"_s, hana::type_c<first>), see(s)); once(s, 8, &hana::at_c<0>(p.name), "a path leads to the innermost value"); nb_cover("products");
}
NB_ENTRY(variants) {
  account_state st = make_state(); account* a = account_of(st); seen s; nbdl::match(st, see(s)); int k = a ? 3 : std::holds_alternative<nbdl::not_found>(st.value_) ? 5 : 4; once(s, k, a ? (void const*)a : nullptr, "a variant is matched as the alternative it holds");
  s = {}; nbdl::match(st, "id"_s, see(s)); once(s, a ? 1 : k, a ? (void const*)&a->id : nullptr, "a key looks into the alternative that is a store");
  seen w, x, y; nbdl::match(st, nbdl::match_when<account>(see(w))); nbdl::match_when<nbdl::not_found>(st, see(x)); nbdl::match(st, nbdl::match_when<person>(see(y))); nb_assert(w.calls == (a ? 1 : 0) && (!a || w.at == a) && x.calls == (k == 5) && y.calls == 0, "match_when calls its function only for a value of the type");
  seen mw; nbdl::match_when<int>(st, "id"_s, see(mw)); nb_assert(mw.calls == (a ? 1 : 0) && (!a || mw.at == &a->id), "match_when with a key looks at the value of the key");
  seen f, g, o; nbdl::match(st, nbdl::mapped_overload(hana::make_map(hana::make_pair(hana::type_c<account>, see(f)), hana::make_pair(hana::type_c<nbdl::unresolved>, see(g)), hana::make_pair(hana::type_c<int>, see(o))), see(o))); nb_assert(f.calls == (k == 3) && g.calls == (k == 4) && o.calls == (k == 5), "mapped_overload picks the function of the type, or the one for the rest");
  seen p; nbdl::match_path(st, hana::make_tuple("who"_s, "name"_s, hana::type_c<last>), see(p)); person* q = a ? person_of(*a) : nullptr;
  once(p, q ? 9 : a ? 7 : k, q ? (void const*)&hana::at_c<1>(q->name) : nullptr, "a path ends at the innermost value or at the first variant without it"); if (q) nb_cover("deep"); else nb_cover("cut-off");
  seen l; nbdl::match_path(std::as_const(st), hana::make_tuple("who"_s, "age"_s), [&](int const& v) { see(l)(v); }, [&](auto&& v) { see(l)(v); }); once(l, q ? 1 : a ? 7 : k, q ? (void const*)&q->age : nullptr, "the first function that takes the value is called");
}
NB_ENTRY(holder) {
  using V = nbdl::variant_holder<nbdl::unresolved, int, person>; V v; unsigned c = nb_choose(3, "c"); if (c == 1) v = V(any("i")); if (c == 2) v = V(person{any("age"), {}}); seen s; size_t at = 9; int n = 0;
  nbdl::match(v, nbdl::variant_index, [&](auto i) { at = i; ++n; }); nbdl::match(v, nbdl::variant_value, see(s)); nb_assert(n == 1 && at == c, "the index names the alternative held"); once(s, c == 0 ? 4 : c == 1 ? 1 : 2, nullptr, "the value is the alternative held");
  if (c == 1) nb_assert(s.at == std::get_if<int>(&v.value.value_), "the value itself is handed on"); nb_cover("holder");
}
NB_ENTRY(composite) {
  int v1 = any("v1"), v2 = any("v2"), v3 = any("v3"); auto base = hana::make_map(hana::make_pair(hana::type_c<kD>, any("base")), hana::make_pair(hana::type_c<int>, any("other"))); account_state st = make_state();
  auto c = nbdl::store_compose(hana::type_c<kA>, v1, nbdl::store_compose(hana::type_c<kB>, std::ref(v2), nbdl::store_compose(hana::type_c<kC>, std::ref(st), nbdl::store_compose(hana::type_c<kA>, v3, base)))); seen s;
  auto at = [&](auto key) { seen r; nbdl::match(c, key, see(r)); return r; };
  once(at(hana::type_c<kA>), 1, &c.right, "the outermost entry of a key answers"); s = at(hana::type_c<kD>); nb_assert(s.calls == 1 && s.kind == 1 && *(int const*)s.at == base[hana::type_c<kD>], "other keys go to the store below"); s = at(hana::type_c<int>); nb_assert(s.calls == 1 && *(int const*)s.at == base[hana::type_c<int>], "other keys go to the store below");
  int k2 = 0, calls = 0; nbdl::match(c, hana::type_c<kB>, [&](auto& x) { ++calls; int& r = x; k2 = r; nb_assert(&r == &v2, "an entry made from a reference refers to the object"); }); nb_assert(calls == 1 && k2 == v2, "the entry of the key answers");
  account* a = account_of(st); int k = a ? 3 : std::holds_alternative<nbdl::not_found>(st.value_) ? 5 : 4; once(at(hana::type_c<kC>), k, a ? (void const*)a : nullptr, "an entry that is a store is matched");
  seen p; nbdl::match_path(c, hana::make_tuple(hana::type_c<kC>, "who"_s, "age"_s), see(p)); person* q = a ? person_of(*a) : nullptr; once(p, q ? 1 : a ? 7 : k, q ? (void const*)&q->age : nullptr, "a path leads through the composition");
  int w = any("w"), old3 = v3, oldr = c.right; auto set = [&](auto& x) { x = w; }; unsigned which = nb_choose(3, "act"); int b0 = base[hana::type_c<kD>];
  if (which == 0) nbdl::apply_action(c, nbdl::store_composite_action(hana::type_c<kA>, set)); if (which == 1) nbdl::apply_action(c, nbdl::store_composite_action(hana::type_c<kB>, [&](auto& x) { x = w; })); if (which == 2) nbdl::apply_action(c, [&](auto& m) { m[hana::type_c<kD>] = w; });
  nb_assert(c.right == (which == 0 ? w : oldr) && v2 == (which == 1 ? w : k2) && v3 == old3 && base[hana::type_c<kD>] == b0, "an action changes the entry it names only"); s = at(hana::type_c<kD>); nb_assert(*(int const*)s.at == (which == 2 ? w : b0), "any other action goes to the store below"); nb_cover("composite");
}
NB_ENTRY(lookup) {
  std::unordered_map<int, int> m; int keys[4] = {1, 2, 14, -5}; bool in[4]; for (int i = 0; i < 4; i++) { in[i] = nb_choose(2, "in"); if (in[i]) m[keys[i]] = any("v"); }
  unsigned i = nb_choose(5, "key"); int key = i < 4 ? keys[i] : 27; size_t n = m.size(); seen s; nbdl::match(m, key, see(s)); bool there = i < 4 && in[i]; once(s, there ? 1 : 6, there ? (void const*)&m.find(key)->second : nullptr, "a map yields the element of the key or not_in_set"); nb_assert(m.size() == n, "looking up changes nothing");
  std::unordered_map<int, account_state> mm; if (in[0]) mm[3] = make_state(); seen p; nbdl::match_path(mm, hana::make_tuple(3, "id"_s), see(p)); account* a = in[0] ? account_of(mm[3]) : nullptr; int k = !in[0] ? 6 : a ? 1 : std::holds_alternative<nbdl::not_found>(mm[3].value_) ? 5 : 4; once(p, k, a ? (void const*)&a->id : nullptr, "a path leads on through a map of stores"); if (p.kind == 1) nb_cover("nested"); if (s.kind == 6) nb_cover("absent");
}
NB_ENTRY(context_entry) {
  using E = nbdl::context_store<hana::tuple<int, long>>; auto st = nbdl::make_store<E>(hana::type_c<void>, hana::type_c<void>); st.store = hana::make_tuple(any("a"), (long)any("b")); seen s; nbdl::match(st, hana::type_c<kA>, see(s)); nb_assert(s.calls == 1 && s.at == &st.store, "a context store yields the store inside for any path");
  seen p; nbdl::match_path(st, hana::make_tuple(hana::type_c<kA>, hana::type_c<long>), see(p)); once(p, 10, &hana::at_c<1>(st.store), "and a path leads on inside"); nb_assert(&nbdl::get_path(st, hana::make_tuple(hana::type_c<void>, hana::type_c<int>)) == &hana::at_c<0>(st.store), "get_path leads on inside");
  auto next = hana::make_tuple(any("c"), (long)any("d")); nbdl::apply_message(st, nbdl::message::make_downstream_update(hana::make_tuple(), nbdl::message::no_uid, next, nbdl::message::no_is_confirmed)); nb_assert(hana::at_c<0>(st.store) == hana::at_c<0>(next) && hana::at_c<1>(st.store) == hana::at_c<1>(next), "a downstream update replaces the value"); nb_cover("context-entry");
}
namespace {
int limit[4];
template <int I> struct below { bool operator()(int v) const { return v < limit[I]; } template <typename T> bool operator()(T const&) const { return false; } };
template <int I> struct never { template <typename T> constexpr hana::false_ operator()(T const&) const { return {}; } };
struct always { template <typename T> constexpr hana::true_ operator()(T const&) const { return {}; } };
}
NB_ENTRY(conditions) {
  for (int& l : limit) l = any("limit"); int v = any("v"); unsigned want = 4; for (unsigned i = 4; i--;) want = v < limit[i] ? i : want;
  nb_assert((unsigned)nbdl::detail::match_if(mpdef::make_list(below<0>{}, below<1>{}, below<2>{}, below<3>{}, always{}), v) == want, "the first condition that holds is taken");
  unsigned got = 99, n = 0; int arg = 0; nbdl::run_sync(nbdl::pipe(nbdl::detail::match_if_promise(mpdef::make_list(below<0>{}, below<1>{}, below<2>{}, below<3>{}, always{}, below<0>{})), [&](auto i) { got = i; ++n; }), v); nb_assert(n == 1 && got == want, "the first condition that holds is taken, once");
  unsigned w2 = v < limit[0] ? 1 : v < limit[3] ? 3 : 4; nb_assert((unsigned)nbdl::detail::match_if(mpdef::make_list(never<0>{}, below<0>{}, never<1>{}, below<3>{}, always{}, below<1>{}), v) == w2, "conditions known at compile time count too"); if (want == 4) nb_cover("otherwise"); if (want == 2) nb_cover("third"); (void)arg;
}
NB_ENTRY(branches) {
  for (int& l : limit) l = any("limit"); auto m = hana::make_map(hana::make_pair(hana::type_c<kA>, any("v")), hana::make_pair(hana::type_c<kB>, make_state()), hana::make_pair(hana::type_c<kC>, any("c"))); int v = m[hana::type_c<kA>]; account* a = account_of(m[hana::type_c<kB>]); bool nf = std::holds_alternative<nbdl::not_found>(m[hana::type_c<kB>].value_);
  constexpr auto conds = us::match_if(us::get(hana::type_c<kA>), us::cond(below<0>{}, hana::int_c<10>), us::cond(below<1>{}, us::get(hana::type_c<kC>)), us::otherwise(us::get_fn{}));
  unsigned want = v < limit[0] ? 0 : v < limit[1] ? 1 : 2; nb_assert(uh::get_branch_index<std::decay_t<decltype(conds)>>(std::ref(m)) == want, "the branch is the first one whose condition holds");
  int calls = 0, got = 0; uh::match_params_spec(std::ref(m), mpdef::make_list(hana::int_c<1>, conds, us::get(hana::type_c<kC>)), [&](hana::int_<1>, auto x, int c) { ++calls; got = x; nb_assert(c == m[hana::type_c<kC>], "the other parameters are as specified"); }); nb_assert(calls == 1 && got == (want == 0 ? 10 : want == 1 ? m[hana::type_c<kC>] : v), "the parameter is the one of the branch");
  constexpr auto types = us::match(us::get(hana::type_c<kB>), us::when<nbdl::unresolved>(hana::int_c<20>), us::when<account>(us::get(hana::type_c<kB>, "id"_s)), us::when<>(hana::int_c<30>)); unsigned w2 = a ? 1 : nf ? 2 : 0; nb_assert(uh::get_branch_index<std::decay_t<decltype(types)>>(std::ref(m)) == w2, "the branch is the one of the type of the value");
  unsigned bi = 9; int n = 0; uh::match_branch<std::decay_t<decltype(types)>>(std::ref(m), [&](auto i, auto) { bi = i; ++n; }); nb_assert(n == 1 && bi == w2, "one branch is taken");
  calls = 0; long id = 0; uh::match_params_spec(std::ref(m), mpdef::make_list(types), [&](auto x) { ++calls; if constexpr (std::is_convertible_v<decltype(x), int>) id = (int)x; else id = -99; }); nb_assert(calls == 1 && id == (a ? a->id : nf ? 30 : 20), "the parameter is the one of the branch");
  int app = 0; calls = 0; constexpr auto sum = [](int const& x, int const& y) { return x ^ y; }; uh::match_params_spec(std::ref(m), mpdef::make_list(us::apply(sum)(us::get(hana::type_c<kC>), conds), hana::int_c<2>), [&](int x, hana::int_<2>) { app = x; ++calls; }); nb_assert(calls == 1 && app == (m[hana::type_c<kC>] ^ (want == 0 ? 10 : want == 1 ? m[hana::type_c<kC>] : v)), "a function is applied to the resolved parameters in order");
  if (want == 2) nb_cover("otherwise-branch"); if (a) nb_cover("type-branch");
}
NB_ENTRY(specs) {
  account_state st = make_state(); auto m = hana::make_map(hana::make_pair(hana::type_c<kA>, st), hana::make_pair(hana::type_c<kB>, (int)nb_choose(3, "key")), hana::make_pair(hana::type_c<kC>, std::unordered_map<int, int>{{0, any("v0")}, {1, any("v1")}})); account* a = account_of(m[hana::type_c<kA>]); person* q = a ? person_of(*a) : nullptr; int key = m[hana::type_c<kB>]; auto& um = m[hana::type_c<kC>]; seen s;
  uh::match_path_spec(m, us::path_t<>{}, see(s)); nb_assert(s.calls == 1 && s.at == &m, "the empty path leads to the store"); s = {}; uh::match_path_spec(m, us::get(hana::type_c<kB>), see(s)); once(s, 1, &m[hana::type_c<kB>], "a path leads to the value");
  s = {}; uh::match_path_spec(m, us::match_when<person>(us::get(us::match_when<account>(us::get(hana::type_c<kA>)), "who"_s)), see(s)); nb_assert(s.calls == (q ? 1 : 0) && (!q || s.at == q), "a path of types leads on only through values of those types");
  s = {}; uh::match_path_spec(m, us::get(us::match_when<person>(us::get(us::match_when<account>(us::get(hana::type_c<kA>)), "who"_s)), "name"_s, hana::type_c<last>), see(s)); nb_assert(s.calls == (q ? 1 : 0) && (!q || s.at == &hana::at_c<1>(q->name)), "and then to the innermost value");
  bool isp = uh::match_path_spec_predicate_fn<person, decltype(us::get(us::match_when<account>(us::get(hana::type_c<kA>)), "who"_s))>{}(m); (void)isp;
  s = {}; uh::match_path_spec(m, us::get(hana::type_c<kC>, us::key_at(us::get(hana::type_c<kB>))), see(s)); once(s, key < 2 ? 1 : 6, key < 2 ? (void const*)&um.find(key)->second : nullptr, "a key may be taken from the store");
  constexpr auto inc = [](int const& k) { return k + 1; }; s = {}; uh::match_path_spec(m, us::get(hana::type_c<kC>, us::apply(inc)(us::get(hana::type_c<kB>))), see(s)); once(s, key < 1 ? 1 : 6, key < 1 ? (void const*)&um.find(key + 1)->second : nullptr, "a key may be computed from the store"); if (q) nb_cover("spec-deep"); if (key == 2) nb_cover("spec-absent");
}
NB_ENTRY(path_promises) {
  account_state st = make_state(); account* a = account_of(st); person* q = a ? person_of(*a) : nullptr; seen ok, no; int k = a ? 7 : std::holds_alternative<nbdl::not_found>(st.value_) ? 5 : 4;
  constexpr auto spec = us::path_t<us::get_t<decltype("name"_s), hana::type<last>>, us::match_type<person, decltype("who"_s)>, us::match_type<account>>{};
  nbdl::run_sync(nbdl::pipe([&]() -> account_state& { return st; }, nbdl::path_promise(spec), nbdl::tap(see(ok)), nbdl::catch_(see(no)))); nb_assert(ok.calls + no.calls == 1, "a path promise is settled once"); nb_assert(ok.calls == (q ? 1 : 0) && (q ? ok.kind == 9 : no.kind == k), "it is resolved with the innermost value or rejected with what is there instead"); nb_cover(q ? "resolved" : "rejected");
}
NB_ENTRY(nested_variants) {
  using inner = nbdl::optional<int>; nbdl::variant<long, inner> v{}; unsigned c = nb_choose(4, "c"); if (c == 1) v = (long)any("l"); if (c == 2) v = inner{any("i")}; if (c == 3) v = inner{}; auto* in = std::get_if<inner>(&v.value_); int* i = in ? std::get_if<int>(&in->value_) : nullptr;
  seen s; nbdl::match(v, see(s)); once(s, i ? 1 : in ? 7 : c == 1 ? 10 : 4, i, "a variant inside a variant is matched as the alternative it holds"); seen w; nbdl::match(v, nbdl::match_when<int>(see(w))); nb_assert(w.calls == (i ? 1 : 0) && (!i || w.at == i), "match_when looks at the value that is matched"); seen x; nbdl::match_when<long>(v, see(x)); nb_assert(x.calls == (c == 1), "match_when calls its function only for a value of the type"); nb_cover("nested-variants");
}
NB_ENTRY(no_branch) {
  auto m = hana::make_map(hana::make_pair(hana::type_c<kB>, make_state())); account* a = account_of(m[hana::type_c<kB>]); person* q = a ? person_of(*a) : nullptr; constexpr auto who = us::get(us::match_when<account>(us::get(hana::type_c<kB>)), "who"_s); constexpr auto spec = us::match(who, us::when<person>(hana::int_c<1>), us::when<>(hana::int_c<2>));
  int n = 0, got = 0; uh::match_params_spec(std::ref(m), mpdef::make_list(spec), [&](auto x) { ++n; got = x; }); nb_assert(n == (a ? 1 : 0) && (!a || got == (q ? 1 : 2)), "a branch on a path that leads nowhere is not taken"); nb_cover(a ? "branch-taken" : "no-branch");
  n = 0; uh::match_branch<std::decay_t<decltype(spec)>>(std::ref(m), [&](auto, auto) { ++n; }); nb_assert(n == (a ? 1 : 0), "a branch on a path that leads nowhere is not taken");
}
namespace { struct person_alias : nbdl::strong_alias<person> { using nbdl::strong_alias<person>::strong_alias; }; struct state_alias : nbdl::strong_alias<account_state> { using nbdl::strong_alias<account_state>::strong_alias; }; }
NB_ENTRY(aliases) {
  person_alias p{person{any("age"), hana::make_tuple(first{any("f")}, last{any("l")})}}; seen s; nbdl::match(p, "age"_s, see(s)); once(s, 1, &p.nbdl_get_strong_alias_value().age, "an alias of a store yields what the store yields"); s = {}; nbdl::match_path(p, hana::make_tuple("name"_s, hana::type_c<last>), see(s)); once(s, 9, &hana::at_c<1>(p.nbdl_get_strong_alias_value().name), "a path leads through an alias");
  state_alias v{make_state()}; account* a = account_of(v.nbdl_get_strong_alias_value()); int k = a ? 3 : std::holds_alternative<nbdl::not_found>(v.nbdl_get_strong_alias_value().value_) ? 5 : 4; s = {}; nbdl::match(v, see(s)); once(s, k, a, "an alias of a variant is matched as the alternative it holds"); s = {}; nbdl::match(v, "id"_s, see(s)); once(s, a ? 1 : k, a ? (void const*)&a->id : nullptr, "a key leads through an alias"); state_alias c(v); s = {}; nbdl::match(c, see(s)); nb_assert(s.calls == 1 && s.kind == k && (!a || s.at != a), "a copy of an alias is a value of its own"); nb_cover("aliases");
}
NB_ENTRY(ranges) {
  std::vector<account_state> xs; unsigned n = nb_choose(3, "n"); for (unsigned i = 0; i < n; i++) xs.push_back(make_state()); auto base = hana::make_map(hana::make_pair(hana::type_c<kD>, any("base"))); auto r = nbdl::store_range(hana::type_c<kA>, xs, base); unsigned i = 0;
  for (auto& it : r) { account* a = account_of(xs[i]); int k = a ? 3 : std::holds_alternative<nbdl::not_found>(xs[i].value_) ? 5 : 4; seen s; nbdl::match(it, hana::type_c<kA>, see(s)); once(s, k, a, "each position of a range yields its element"); s = {}; nbdl::match(it, hana::type_c<kD>, see(s)); nb_assert(s.calls == 1 && s.kind == 1 && *(int const*)s.at == base[hana::type_c<kD>], "other keys go to the store below"); ++i; }
  nb_assert(i == n, "a range visits every element once"); nb_cover("ranges");
}
