#include "json_docs.h"
// stands in for the promise library the deserializer is written against (not installed): a promise is its function, called with the resolver
namespace full_duplex { struct promise_fn { template <typename F> constexpr F operator()(F f) const { return f; } }; constexpr promise_fn promise{}; template <typename T> struct error_t { T value; }; struct make_error_fn { template <typename T> constexpr error_t<std::decay_t<T>> operator()(T&& t) const { return {std::forward<T>(t)}; } }; constexpr make_error_fn make_error{}; }
#include <nbdl.hpp>
#include <nbdl/app/serializer.hpp>
using namespace boost::hana::literals; namespace msg = nbdl::message;
namespace ax {
struct root { int x; }; struct item { int n; nbdl::string s; }; struct pic { jx::bytes b; };
struct producer1; struct consumer1;
template <int I> struct ik { int value; }; // keys: one number
}
namespace nbdl { NBDL_ENTITY(ax::root, x); NBDL_ENTITY(ax::item, n, s); NBDL_ENTITY(ax::pic, b); NBDL_ENTITY(ax::ik<1>, value); NBDL_ENTITY(ax::ik<2>, value); NBDL_ENTITY(ax::ik<3>, value); }
namespace ax {
struct def { static constexpr auto make_def() { using namespace nbdl_def; return Context(
  Producers(Producer(Name("p1"_s), Type<producer1>, AccessPoint(Name(hana::type_c<void>), Entity<root>, PathKey<ik<1>>,
    Actions(Create(), Read()), AccessPoints(AccessPoint(Name(hana::type_c<void>), Entity<item>, PathKey<ik<2>>, Actions(Create(), Read(), Update(), Delete())), AccessPoint(Name(hana::type_c<void>), Entity<pic>, PathKey<ik<3>>, Actions(Create(), Read())))))),
  Consumers(Consumer(Type<consumer1>, Name("c1"_s)))); } };
}
using api = nbdl::message_api<ax::def>; using up = api::upstream_variant; using down = api::downstream_variant;
namespace {
using namespace ax;
// parts of messages: paths, keys, payloads, flags
template <typename T> void gen_part(T& x, const char* n); template <typename T> bool eq_part(T const& a, T const& b);
template <int I> void gen(ik<I>& k, const char* n) { gen(k.value, n); } void gen(root& x, const char* n) { gen(x.x, n); } void gen(item& x, const char* n) { gen(x.n, n); gen(x.s, n); } void gen(pic& x, const char* n) { gen(x.b, n); }
template <int I> bool eq(ik<I> const& a, ik<I> const& b) { return a.value == b.value; } bool eq(root const& a, root const& b) { return a.x == b.x; } bool eq(item const& a, item const& b) { return (a.n == b.n) & eq(a.s, b.s); } bool eq(pic const& a, pic const& b) { return eq(a.b, b.b); }
template <typename K, typename P> void gen(msg::create_path<K, P>& p, const char* n) { gen_part(p.parent_path, n); } template <typename K, typename P> bool eq(msg::create_path<K, P> const& a, msg::create_path<K, P> const& b) { return eq_part(a.parent_path, b.parent_path); }
void gen(nbdl::system_message& m, const char* n) { using L = decltype(m.level); m.level = (L)nb_choose(5, n); m.value = nb_string(nb_choose(nb_param("len", 2) + 1, n), n); }
bool eq(nbdl::system_message const& a, nbdl::system_message const& b) { return (a.level == b.level) & eq(a.value, b.value); }
template <typename T> concept tup = requires { requires hana::is_a<hana::tuple_tag, T>() || hana::is_a<hana::basic_tuple_tag, T>(); };
template <typename T> void gen_part(T& x, const char* n) { if constexpr (tup<T>) hana::for_each(x, [&](auto& e) { gen_part(e, n); }); else if constexpr (requires { x.storage; }) gen_part(x.storage, n); else if constexpr (!std::is_empty_v<T>) gen(x, n); }
template <typename T> bool eq_part(T const& a, T const& b) { bool r = true; if constexpr (tup<T>) { hana::unpack(a, [&](auto const&... x) { hana::unpack(b, [&](auto const&... y) { ((r &= eq_part(x, y)), ...); }); }); } else if constexpr (requires { a.storage; }) r = eq_part(a.storage, b.storage); else if constexpr (!std::is_empty_v<T>) r = eq(a, b); return r; }
template <typename T> struct is_error : std::false_type {}; template <typename T> struct is_error<full_duplex::error_t<T>> : std::true_type {};
struct got { int errors = 0, messages = 0, kind = -1; std::string text; };
template <typename V> using alts = decltype(std::declval<V>().value_);
template <typename V, typename T, int I = 0> constexpr int kind_of() { if constexpr (std::is_same_v<std::variant_alternative_t<I, alts<V>>, T>) return I; else return kind_of<V, T, I + 1>(); }
template <typename V, typename F> struct resolver { got& g; F f; template <typename T> void operator()(T&& x) const { using X = std::decay_t<T>; if constexpr (is_error<X>::value) ++g.errors; else { ++g.messages; g.kind = kind_of<V, X>(); nbdl::app::serializer<ax::def, V> s; g.text = s.serialize(x); f(x); } } };
template <typename V, typename F> got receive(std::string const& buf, F f) { got g; resolver<V, F> r{g, f}; std::string const t = buf; try { nbdl::app::deserializer_fn<ax::def, V>{}()(r, t); } catch (...) { nb_fail("a failure is reported through the promise"); } nb_assert(g.errors + g.messages == 1, "each buffer is resolved exactly once"); return g; }
template <typename V> constexpr size_t count = std::variant_size_v<alts<V>>;
template <typename V, typename F> void some_kind(F f) { unsigned k = nb_choose(count<V> - 1, "kind") + 1; [&]<size_t... I>(std::index_sequence<I...>) { ((I == k ? (f(std::integral_constant<int, I>{}), 0) : 0), ...); }(std::make_index_sequence<count<V>>{}); }
template <typename V, int K> auto any_message(const char* n) { std::variant_alternative_t<K, alts<V>> m{}; gen_part(m, n); return m; }
template <typename V> void wire() {
  some_kind<V>([](auto k) { constexpr int K = decltype(k)::value; auto m = any_message<V, K>("m"); nbdl::app::serializer<ax::def, V> s;
    if (nb_param("reused", 1)) some_kind<V>([&](auto j) { s.serialize(any_message<V, decltype(j)::value>("before")); });
    std::string& b = s.serialize(m); nb_assert(&b == &s.buffer, "the serializer hands out its own buffer");
    bool same = false; got g = receive<V>(b, [&](auto const& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::decay_t<decltype(m)>>) same = eq_part(x, m); });
    if constexpr (std::is_same_v<std::decay_t<decltype(m)>, nbdl::system_message>) { nb_assert(g.errors == 1, "a system message is reported as an error"); nb_cover("system"); }
    else { nb_assert(g.messages == 1 && g.kind == K, "a message arrives as a message of the same kind"); nb_assert(same, "a message arrives with the path, unique id and payload it was sent with"); nb_cover("arrives"); } });
}
// the document holds everything that the message, written out again, holds
bool covers(Value const& d, Value const& c) {
  switch (c.type()) { case Json::nullValue: return true; case Json::booleanValue: return d.isBool() && d.asBool() == c.asBool(); case Json::intValue: case Json::uintValue: return d.isIntegral() && (c.isInt64() ? d.isInt64() && d.asInt64() == c.asInt64() : d.isUInt64() && d.asUInt64() == c.asUInt64());
    case Json::stringValue: return d.isString() && eq(d.asString(), c.asString()); case Json::arrayValue: { if (!d.isArray() || d.size() != c.size()) return false; bool ok = true; for (unsigned i = 0; i < c.size(); i++) ok &= covers(d[i], c[i]); return ok; }
    case Json::objectValue: { if (!d.isObject()) return false; bool ok = true; for (auto const& k : c.getMemberNames()) { if (!d.isMember(k)) return false; ok &= covers(d[k], c[k]); } return ok; } default: return false; }
}
Value parse(std::string const& t) { Json::CharReaderBuilder b; std::unique_ptr<Json::CharReader> r(b.newCharReader()); Value v; std::string e; r->parse(t.data(), t.data() + t.size(), &v, &e); return v; }
// replaces one value somewhere inside d, or removes or adds one
void spoil_at(Value& d) {
  if (d.isArray() && d.size() && nb_choose(2, "inside")) { unsigned n = d.size(), i = nb_choose(n + 2, "where"); if (i == n) d.append(simple(nb_choose(K_N, "add"))); else if (i == n + 1) d.resize(n - 1); else spoil_at(d[i]); return; }
  if (d.isObject() && d.size() && nb_choose(2, "inside")) { auto names = d.getMemberNames(); unsigned n = names.size(), i = nb_choose(n + 2, "where"); if (i == n) d["zz"] = simple(nb_choose(3, "add")); else if (i == n + 1) d.removeMember(names[nb_choose(n, "drop")]); else spoil_at(d[names[i]]); return; }
  d = odd_doc();
}
template <typename V> void malformed() {
  some_kind<V>([](auto k) { nbdl::app::serializer<ax::def, V> s; Value d = parse(s.serialize(any_message<V, decltype(k)::value>("m"))); for (unsigned i = nb_param("odd", 1); i--;) spoil_at(d);
    got g = receive<V>(text_of(d), [](auto const&) {});
    if (g.messages) { Value c = parse(g.text); nb_assert(covers(d, c), "a message is delivered only if the buffer holds it"); nb_cover("delivered"); } else nb_cover("reported"); });
}
template <typename V> void garbage() { static const char* const t[] = {"", "}", "{", "[", "]"}; got g = receive<V>(t[nb_choose(5, "text")], [](auto const&) {}); nb_assert(g.errors == 1, "a buffer that is no document is reported as an error"); nb_cover("garbage"); }
}
NB_ENTRY(wire_up) { wire<up>(); } NB_ENTRY(wire_down) { wire<down>(); } NB_ENTRY(malformed_up) { malformed<up>(); } NB_ENTRY(malformed_down) { malformed<down>(); } NB_ENTRY(garbage_up) { garbage<up>(); } NB_ENTRY(garbage_down) { garbage<down>(); }
