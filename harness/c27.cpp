// C27: the statements are well-formed, name each column once and bind every member to its own column:
// a small database executes the text it is given, so that what is inserted is what is selected.
#include <boost/hana.hpp>
#include <nbdl/bind_sequence.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <nbdl/sql_db/select.hpp>
#include <nbdl/sql_db/update.hpp>
#include <nbdl/sql_db/statement/insert.hpp>
#include <nbdl/sql_db/statement/select.hpp>
#include <nbdl/sql_db/statement/update.hpp>
#include <string>
#include <vector>
#include "nb.h"
namespace hana = boost::hana;
namespace sql = nbdl::sql_db;
struct foo { int foo_value; };
struct bar { nbdl::string bar_value; foo bar_foo; };
struct baz { int baz_value; foo baz_foo; bar baz_bar; int baz_last; };
struct flat { int a; nbdl::string b; unsigned c; bool d; nbdl::string e; short f; };
struct deep { bar left; int mark; baz right; foo last; };
struct crew { nbdl::string crew_name; std::vector<foo> crew_foos; };
struct team { int size; std::vector<bar> bars; foo mascot; std::vector<foo> foos; nbdl::string motto; };
namespace nbdl
{
  NBDL_ENTITY(foo, foo_value);
  NBDL_ENTITY(bar, bar_value, bar_foo);
  NBDL_ENTITY(baz, baz_value, baz_foo, baz_bar, baz_last);
  NBDL_ENTITY(flat, a, b, c, d, e, f);
  NBDL_ENTITY(deep, left, mark, right, last);
  NBDL_ENTITY(crew, crew_name, crew_foos);
  NBDL_ENTITY(team, size, bars, mascot, foos, motto);
  namespace sql_db { template <> struct primary_key_impl<team> { using type = nbdl::key<team, std::string>; }; }
}
// ---- values
struct cell { bool text = false; unsigned long num = 0; std::string str; };
static cell val(std::string const& s) { cell c; c.text = true; c.str = s; return c; }
template <typename T> requires std::is_integral_v<T> static cell val(T x) { cell c; c.num = (unsigned long)(long)x; return c; }
template <typename T, typename K> static cell val(nbdl::key_impl<T, K> const& k) { return val(k.value); }
static bool same(cell const& a, cell const& b) { return a.text == b.text && (a.text ? nb_streq(a.str, b.str) : a.num == b.num); }
static void expect(cell const& a, cell const& b, char const* what)
{ nb_assert(a.text == b.text, what); if (a.text) { nb_assert(a.str.size() == b.str.size(), what); nb_assert(nb_memeq(a.str.data(), b.str.data(), a.str.size()), what); } else nb_assert(a.num == b.num, what); }
template <typename T> static std::vector<cell> cells(T const& seq) { std::vector<cell> v; hana::for_each(seq, [&](auto const& x) { v.push_back(val(x)); }); return v; }
template <typename S> static std::string text(S const& s) { return std::string(s.c_str(), hana::value(hana::length(s))); }
// ---- reading the text of a statement
struct reader
{
  std::string t; unsigned long p = 0, marks = 0;
  void bad() { nb_fail("the statement is not well-formed"); }
  void space() { while (p < t.size() && t[p] == ' ') p++; }
  bool is(char const* s) { space(); std::string w(s); if (t.compare(p, w.size(), w) != 0) return false; bool word = w[0] >= 'A' && w[0] <= 'Z'; if (word && p + w.size() < t.size() && ((t[p + w.size()] >= 'A' && t[p + w.size()] <= 'Z') || (t[p + w.size()] >= 'a' && t[p + w.size()] <= 'z'))) return false; p += w.size(); return true; }
  void need(char const* s) { if (!is(s)) bad(); }
  std::string name() { space(); if (p >= t.size() || t[p] != '"') bad(); std::string r; p++; while (p < t.size() && t[p] != '"') r += t[p++]; if (p >= t.size() || r.empty()) bad(); p++; if (p < t.size() && t[p] == '"') bad(); return r; }
  void mark() { need("?"); marks++; }
  void end() { is(";"); space(); if (p != t.size()) bad(); }
};
static void once(std::vector<std::string> const& v) { for (unsigned i = 0; i < v.size(); i++) for (unsigned j = 0; j < i; j++) if (v[i] == v[j]) nb_fail("a column is named twice"); }
// ---- the database
struct row { cell key; std::vector<std::string> names; std::vector<cell> cells; cell const* at(std::string const& table, std::string const& n) const { if (n == table + "_id") return &key; for (unsigned i = 0; i < names.size(); i++) if (names[i] == n) return &cells[i]; return nullptr; } };
struct table { std::string name; cell base; std::vector<row> rows; };
struct ref { std::string table, column; };
struct database
{
  std::vector<table> tables; unsigned inserts = 0;
  table& get(std::string const& n) { for (auto& t : tables) if (t.name == n) return t; tables.push_back(table{n, {}, {}}); tables.back().base.num = nb_any<std::uint32_t>("base"); return tables.back(); }
  // what the text says is done, nothing else
  void insert(std::string const& stmt, std::vector<cell> const& v, cell const& key)
  {
    reader r{stmt}; r.need("INSERT"); r.need("INTO"); std::string t = r.name(); std::vector<std::string> cols; r.need("("); do cols.push_back(r.name()); while (r.is(",")); r.need(")"); r.need("VALUES"); r.need("("); do r.mark(); while (r.is(",")); r.need(")"); r.end();
    once(cols); nb_assert(r.marks == v.size(), "one placeholder per value"); nb_assert(cols.size() == v.size(), "one value per column"); get(t).rows.push_back(row{key, cols, v}); inserts++;
  }
  struct join { std::string table, alias; ref a, b; };
  static ref qualified(reader& r) { ref x; x.table = r.name(); r.need("."); x.column = r.name(); return x; }
  struct result { std::vector<ref> cols; std::vector<std::string> path; std::vector<std::vector<cell>> rows; };
  result select(std::string const& stmt, std::vector<cell> const& v)
  {
    reader r{stmt}; result out; r.need("SELECT"); do out.cols.push_back(qualified(r)); while (r.is(",")); r.need("FROM"); std::string from = r.name(); std::vector<join> js; js.push_back(join{from, from, {}, {}});
    while (r.is("JOIN")) { join j; j.table = r.name(); r.need("AS"); j.alias = r.name(); r.need("ON"); j.a = qualified(r); r.need("="); j.b = qualified(r); js.push_back(j); }
    std::vector<ref> where; r.need("WHERE"); do { where.push_back(qualified(r)); r.need("="); r.mark(); } while (r.is("AND")); r.end();
    nb_assert(r.marks == v.size(), "one placeholder per value"); std::vector<std::string> names; for (auto& j : js) names.push_back(j.alias); once(names); names.clear(); for (auto& c : out.cols) names.push_back(c.table + "/" + c.column); once(names);
    auto find = [&](std::string const& alias, unsigned upto) { for (unsigned i = 0; i < upto; i++) if (js[i].alias == alias) return i; nb_fail("a name that the statement does not introduce"); };
    // the chain of key columns by which an alias is reached from the entity
    std::vector<std::string> chain(js.size()); for (unsigned i = 1; i < js.size(); i++) { ref a = js[i].a, b = js[i].b; if (a.table == js[i].alias) std::swap(a, b); nb_assert(b.table == js[i].alias, "a join connects its own table"); nb_assert(b.column == js[i].table + "_id", "a join uses the key of its table"); chain[i] = chain[find(a.table, i)] + "/" + a.column; }
    for (auto& c : out.cols) out.path.push_back(chain[find(c.table, js.size())] + "/" + c.column);
    std::vector<row const*> cur(js.size()); walk(js, 0, cur, find, where, v, out); return out;
  }
  template <typename F> cell const& at(std::vector<join> const& js, std::vector<row const*> const& cur, F& find, ref const& x, unsigned upto) { unsigned i = find(x.table, upto); cell const* c = cur[i]->at(js[i].table, x.column); if (!c) nb_fail("a column that the table does not have"); return *c; }
  template <typename F> void walk(std::vector<join> const& js, unsigned i, std::vector<row const*>& cur, F& find, std::vector<ref> const& where, std::vector<cell> const& v, result& out)
  {
    if (i == js.size()) { for (unsigned k = 0; k < where.size(); k++) if (!same(at(js, cur, find, where[k], i), v[k])) return; std::vector<cell> r; for (auto& c : out.cols) r.push_back(at(js, cur, find, c, i)); out.rows.push_back(r); return; }
    for (auto& r : get(js[i].table).rows) { cur[i] = &r; if (i && !same(at(js, cur, find, js[i].a, i + 1), at(js, cur, find, js[i].b, i + 1))) continue; walk(js, i + 1, cur, find, where, v, out); }
  }
  unsigned update(std::string const& stmt, std::vector<cell> const& v)
  {
    reader r{stmt}; r.need("UPDATE"); std::string t = r.name(); r.need("SET"); std::vector<std::string> set, where; do { set.push_back(r.name()); r.need("="); r.mark(); } while (r.is(",")); r.need("WHERE"); do { where.push_back(r.name()); r.need("="); r.mark(); } while (r.is("AND")); if (r.is("LIMIT")) r.need("1"); r.end();
    once(set); once(where); nb_assert(r.marks == v.size(), "one placeholder per value"); unsigned n = 0;
    for (auto& row : get(t).rows) { bool hit = true; for (unsigned i = 0; i < where.size(); i++) { cell const* c = row.at(t, where[i]); if (!c) nb_fail("a column that the table does not have"); hit = hit && same(*c, v[set.size() + i]); } if (!hit) continue; n++;
      for (unsigned i = 0; i < set.size(); i++) { cell* c = const_cast<cell*>(row.at(t, set[i])); if (!c) nb_fail("a column that the table does not have"); *c = v[i]; } }
    return n;
  }
};
static std::string fresh_key() { return nb_string(nb_choose(2, "long") ? 20 : 2, "key"); }
static auto inserter(database& db)
{
  return [&db](auto name, auto&& params) {
    std::vector<std::string> pn; std::vector<cell> pv; hana::for_each(params, [&](auto const& p) { pn.push_back(text(hana::first(p))); pv.push_back(val(hana::second(p))); }); once(pn);
    auto st = sql::statement::insert(name, hana::unpack(params, hana::make_map)); std::string t = text(name); table& tab = db.get(t); cell key; constexpr bool named = std::is_same_v<decltype(name), sql::table_name<team>>;
    if constexpr (named) key = val(fresh_key()); else key.num = (std::uint32_t)(tab.base.num + tab.rows.size());
    db.insert(text(hana::first(st)), cells(hana::second(st)), key); row const& r = db.get(t).rows.back(); nb_assert(r.cells.size() == pv.size(), "each value is bound once");
    for (unsigned i = 0; i < pn.size(); i++) { cell const* c = r.at("", pn[i]); if (!c) nb_fail("a value without a column"); expect(*c, pv[i], "each value is bound to its own column"); }
    if constexpr (named) return key.str; else return (std::uint32_t)key.num; };
}
// ---- entities and what their rows hold
template <typename T> struct make;
static std::string str(char const* n) { return nb_string(nb_choose(2, "size") * 2, n); }
template <> struct make<foo> { static foo any() { return foo{nb_any<int>("foo")}; } static void flat(foo const& x, std::string p, std::vector<std::string>& n, std::vector<cell>& v) { n.push_back(p + "/foo_value"); v.push_back(val(x.foo_value)); } };
template <> struct make<bar> { static bar any() { std::string s = str("bar"); return bar{s, make<foo>::any()}; } static void flat(bar const& x, std::string p, std::vector<std::string>& n, std::vector<cell>& v) { n.push_back(p + "/bar_value"); v.push_back(val(x.bar_value)); make<foo>::flat(x.bar_foo, p + "/bar_foo_id", n, v); } };
template <> struct make<baz> { static baz any() { int a = nb_any<int>("baz"); foo f = make<foo>::any(); bar b = make<bar>::any(); return baz{a, f, b, nb_any<int>("last")}; }
  static void flat(baz const& x, std::string p, std::vector<std::string>& n, std::vector<cell>& v) { n.push_back(p + "/baz_value"); v.push_back(val(x.baz_value)); n.push_back(p + "/baz_last"); v.push_back(val(x.baz_last)); make<foo>::flat(x.baz_foo, p + "/baz_foo_id", n, v); make<bar>::flat(x.baz_bar, p + "/baz_bar_id", n, v); } };
template <> struct make<::flat> { static ::flat any() { ::flat f; f.a = nb_any<int>("a"); f.b = str("b"); f.c = nb_any<unsigned>("c"); f.d = nb_any<bool>("d"); f.e = str("e"); f.f = nb_any<short>("f"); return f; }
  static void flat(::flat const& x, std::string p, std::vector<std::string>& n, std::vector<cell>& v) { n.insert(n.end(), {p + "/a", p + "/b", p + "/c", p + "/d", p + "/e", p + "/f"}); v.insert(v.end(), {val(x.a), val(x.b), val(x.c), val(x.d), val(x.e), val(x.f)}); } };
template <> struct make<deep> { static deep any() { bar b = make<bar>::any(); int m = nb_any<int>("mark"); baz r = make<baz>::any(); return deep{b, m, r, make<foo>::any()}; }
  static void flat(deep const& x, std::string p, std::vector<std::string>& n, std::vector<cell>& v) { n.push_back(p + "/mark"); v.push_back(val(x.mark)); make<bar>::flat(x.left, p + "/left_id", n, v); make<baz>::flat(x.right, p + "/right_id", n, v); make<foo>::flat(x.last, p + "/last_id", n, v); } };
template <typename T> static auto put(database& db, T const& x)
{
  T y = x; auto in = inserter(db); unsigned how = nb_choose(3, "how");
  if (how == 0) return sql::insert(in, std::move(y)); if (how == 2) { T const& c = y; auto k = sql::insert(in, c); return k; }
  auto k = sql::insert(in, y); std::vector<std::string> n0, n1; std::vector<cell> a, b; make<T>::flat(x, "", n0, a); make<T>::flat(y, "", n1, b); for (unsigned i = 0; i < a.size(); i++) expect(a[i], b[i], "inserting leaves the entity alone"); return k;
}
template <typename T> static auto selecter(database& db) { return [&db](auto name, auto columns, auto joins, auto&& keys) { auto st = sql::statement::select(name, columns, joins, hana::unpack(keys, hana::make_map)); return db.select(text(hana::first(st)), cells(hana::second(st))); }; }
template <typename T> static void row_is(database::result const& r, unsigned i, T const& x)
{
  std::vector<std::string> n; std::vector<cell> v; make<T>::flat(x, "", n, v); nb_assert(r.cols.size() == n.size(), "every column is selected once");
  for (unsigned k = 0; k < n.size(); k++) { unsigned hit = 99; for (unsigned j = 0; j < r.path.size(); j++) if (r.path[j] == n[k]) { if (hit != 99) nb_fail("a column is selected twice"); hit = j; } if (hit == 99) nb_fail("a column is not selected"); expect(r.rows[i][hit], v[k], "what is selected is what was inserted"); }
}
template <typename T> static void round_trip(unsigned rows)
{
  database db; std::vector<T> all; std::vector<sql::primary_key<T>> keys; for (unsigned i = 0; i < rows; i++) { all.push_back(make<T>::any()); keys.push_back(put(db, all.back())); }
  for (unsigned i = 0; i < rows; i++) { auto r = sql::select<T>(selecter<T>(db), hana::make_basic_tuple(hana::make_pair(sql::select_primary_key_name<T>{}, keys[i]))); nb_assert(r.rows.size() == 1, "the key finds its row and no other"); row_is(r, 0, all[i]); }
  nb_observe("inserts", db.inserts); nb_cover("end");
}
NB_ENTRY(trip_foo) { round_trip<foo>(nb_param("rows", 3)); }
NB_ENTRY(trip_flat) { round_trip<flat>(nb_param("rows", 2)); }
NB_ENTRY(trip_bar) { round_trip<bar>(nb_param("rows", 2)); }
NB_ENTRY(trip_baz) { round_trip<baz>(nb_param("rows", 2)); }
NB_ENTRY(trip_deep) { round_trip<deep>(nb_param("rows", 1)); }
// rows of a container belong to the entity they are in, in order
template <typename T> static void owned(database& db, std::string const& owner, cell const& key, std::vector<T> const& xs, unsigned long& at)
{
  using name = sql::table_name<T>; table& t = db.get(text(name{}));
  for (auto& x : xs) { nb_assert(at < t.rows.size(), "every element has its row"); row const& r = t.rows[at++]; cell const* k = r.at(t.name, owner); if (!k) nb_fail("an element without its owner"); expect(*k, key, "an element belongs to its owner");
    if constexpr (std::is_same_v<T, foo>) { nb_assert(r.names.size() == 2, "no other column"); expect(*r.at(t.name, "foo_value"), val(x.foo_value), "an element's value"); }
    else { nb_assert(r.names.size() == 3, "no other column"); expect(*r.at(t.name, "bar_value"), val(x.bar_value), "an element's value"); auto res = sql::select<bar>(selecter<bar>(db), hana::make_basic_tuple(hana::make_pair(sql::select_primary_key_name<bar>{}, sql::primary_key<bar>{(std::uint32_t)r.key.num}))); nb_assert(res.rows.size() == 1, "an element's row"); row_is(res, 0, x); } }
}
NB_ENTRY(containers)
{
  database db; unsigned long at = 0; unsigned groups = nb_param("groups", 2);
  for (unsigned g = 0; g < groups; g++) { crew c; c.crew_name = str("name"); unsigned n = nb_choose(nb_param("most", 3) + 1, "n"); for (unsigned i = 0; i < n; i++) c.crew_foos.push_back(make<foo>::any());
    auto k = nb_choose(2, "moved") ? sql::insert(inserter(db), crew(c)) : sql::insert(inserter(db), c); row const& r = db.get("crew").rows.back(); nb_assert(r.names.size() == 1, "a container is not a column"); expect(*r.at("crew", "crew_name"), val(c.crew_name), "the owner's value"); expect(r.key, val(k), "the key that the database gave"); owned(db, "crew_id", val(k), c.crew_foos, at); nb_assert(db.get("foo").rows.size() == at, "no row but the elements"); }
  nb_observe("inserts", db.inserts); nb_cover("end");
}
NB_ENTRY(named_owner)
{
  database db; team t; t.size = nb_any<int>("size"); t.motto = str("motto"); t.mascot = make<foo>::any(); unsigned n = nb_choose(nb_param("most", 2) + 1, "bars"), m = nb_choose(nb_param("most", 2) + 1, "foos"); for (unsigned i = 0; i < n; i++) t.bars.push_back(make<bar>::any()); for (unsigned i = 0; i < m; i++) t.foos.push_back(make<foo>::any());
  auto k = nb_choose(2, "moved") ? sql::insert(inserter(db), team(t)) : sql::insert(inserter(db), t);
  nb_assert(db.get("team").rows.size() == 1, "one row"); row const& r = db.get("team").rows[0]; nb_assert(r.names.size() == 3, "the entity's columns"); expect(r.key, val(k), "the key that the database gave"); expect(*r.at("team", "size"), val(t.size), "the owner's value"); expect(*r.at("team", "motto"), val(t.motto), "the owner's value");
  table& f = db.get("foo"); nb_assert(f.rows.size() == 1 + n + m, "a row for every foo"); expect(*r.at("team", "mascot_id"), f.rows[0].key, "the owner names its child"); expect(*f.rows[0].at("foo", "foo_value"), val(t.mascot.foo_value), "the child's value"); nb_assert(f.rows[0].names.size() == 1, "the child has no owner column");
  unsigned long bars = 0, foos = 1 + n; owned(db, "team_id", val(k), t.bars, bars); owned(db, "team_id", val(k), t.foos, foos); nb_assert(db.get("bar").rows.size() == n, "a row for every bar"); nb_observe("inserts", db.inserts); nb_cover("end");
}
// keys that the caller adds
NB_ENTRY(caller_keys)
{
  database db; std::string owner = fresh_key(); unsigned place = nb_any<unsigned>("place"); auto keys = hana::make_tuple(hana::make_pair(BOOST_HANA_STRING("owner_id"), owner), hana::make_pair(BOOST_HANA_STRING("place_id"), place)); unsigned how = nb_choose(3, "how"); std::vector<foo> xs; unsigned n = how == 2 ? nb_choose(4, "n") : 1; for (unsigned i = 0; i < n; i++) xs.push_back(make<foo>::any());
  if (how == 0) sql::insert(inserter(db), xs[0], keys); else if (how == 1) sql::insert(inserter(db), foo(xs[0]), std::move(keys)); else if (nb_choose(2, "kept")) sql::insert(inserter(db), xs, keys); else sql::insert(inserter(db), xs, std::move(keys));
  auto& rows = db.get("foo").rows; nb_assert(rows.size() == n, "a row for each");
  for (unsigned i = 0; i < n; i++) { nb_assert(rows[i].names.size() == 3, "the columns and the keys"); expect(*rows[i].at("foo", "owner_id"), val(owner), "the caller's key"); expect(*rows[i].at("foo", "place_id"), val(place), "the caller's key"); expect(*rows[i].at("foo", "foo_value"), val(xs[i].foo_value), "the value"); }
  if (how == 0) expect(val(hana::second(hana::at_c<0>(keys))), val(owner), "the caller's keys are left alone"); nb_observe("inserts", db.inserts); nb_cover("end");
}
// an update reaches the row that all of its keys name, and every column of it
template <typename T> static void updated(unsigned rows)
{
  database db; std::vector<T> all; std::vector<sql::primary_key<T>> keys; std::vector<unsigned> place; for (unsigned i = 0; i < rows; i++) { all.push_back(make<T>::any()); place.push_back(nb_any<unsigned>("place")); keys.push_back(sql::insert(inserter(db), all.back(), hana::make_tuple(hana::make_pair(BOOST_HANA_STRING("place_id"), place.back())))); }
  T next = make<T>::any(), sent = next; unsigned which = nb_choose(rows, "which"), both = nb_choose(2, "both"), want = nb_any<unsigned>("want"), n = 0;
  auto run = [&](auto name, auto&& values, auto&& ks) { auto st = sql::statement::update(name, hana::unpack(values, hana::make_basic_tuple), hana::unpack(ks, hana::make_basic_tuple)); n = db.update(text(hana::first(st)), cells(hana::second(st))); };
  auto own = hana::make_pair(sql::table_key_name<T>{}, keys[which]);
  if (!both) { if (nb_choose(2, "moved")) sql::update(run, std::move(sent), hana::make_tuple(own)); else sql::update(run, sent, hana::make_tuple(own)); nb_assert(n == 1, "the row is updated"); }
  else { auto ks = hana::make_tuple(own, hana::make_pair(BOOST_HANA_STRING("place_id"), want)); sql::update(run, sent, ks); nb_assert((n == 1) == (want == place[which]), "the row is updated when all keys fit"); nb_assert(n <= 1, "no other row is"); nb_cover(n ? "fits" : "does-not-fit"); }
  for (unsigned i = 0; i < rows; i++) { auto r = sql::select<T>(selecter<T>(db), hana::make_basic_tuple(hana::make_pair(sql::select_primary_key_name<T>{}, keys[i]), hana::make_pair(hana::plus(sql::detail::identifier_quote<sql::table_name<T>>{}, BOOST_HANA_STRING(".\"place_id\"")), place[i]))); nb_assert(r.rows.size() == 1, "both keys find the row"); row_is(r, 0, n && i == which ? next : all[i]); }
  unsigned other = nb_any<unsigned>("other"); auto r = sql::select<T>(selecter<T>(db), hana::make_basic_tuple(hana::make_pair(sql::select_primary_key_name<T>{}, keys[0]), hana::make_pair(hana::plus(sql::detail::identifier_quote<sql::table_name<T>>{}, BOOST_HANA_STRING(".\"place_id\"")), other))); nb_assert((r.rows.size() == 1) == (other == place[0]), "a row is found only when all keys fit");
  nb_observe("updated", n); nb_cover("end");
}
NB_ENTRY(update_foo) { updated<foo>(nb_param("rows", 3)); }
NB_ENTRY(update_flat) { updated<flat>(nb_param("rows", 1)); }
