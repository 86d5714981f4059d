#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/variant_holder.hpp>
#include <string>
namespace hana = boost::hana;
namespace {
int alive = 0;
struct tok { // counts live objects; a destroyed or moved-from object is recognisable
  int v; int magic = 0x5eed; tok(int x = 0) : v(x) { ++alive; } tok(tok const& o) : v(o.v) { nb_assert(o.magic == 0x5eed, "copied from a live object"); ++alive; } tok(tok&& o) : v(o.v) { nb_assert(o.magic == 0x5eed, "moved from a live object"); ++alive; }
  tok& operator=(tok const& o) { nb_assert(magic == 0x5eed && o.magic == 0x5eed, "assigned between live objects"); v = o.v; return *this; } tok& operator=(tok&& o) { nb_assert(magic == 0x5eed && o.magic == 0x5eed, "assigned between live objects"); v = o.v; return *this; }
  ~tok() { nb_assert(magic == 0x5eed, "destroyed once"); magic = 0; --alive; } };
struct tag { };
using V = nbdl::variant<int, std::string, tok, tag>;
struct mdl { int k = 0; int i = 0; std::string s; };
template <typename Visit> void seen(mdl const& m, Visit&& visit) {
  int calls = 0, kind = -1; bool ok = true;
  visit(hana::overload_linearly([&](nbdl::unresolved const&) { ++calls; kind = 0; }, [&](int const& v) { ++calls; kind = 1; ok = v == m.i; }, [&](std::string const& v) { ++calls; kind = 2; ok = v.size() == m.s.size() && nb_memeq(v.data(), m.s.data(), m.s.size()); },
    [&](tok const& t) { ++calls; kind = 3; ok = (t.v == m.i) & (t.magic == 0x5eed); }, [&](tag const&) { ++calls; kind = 4; }));
  nb_assert(calls == 1, "matching calls exactly one overload, once"); nb_assert(kind == m.k, "matching visits the alternative last given"); nb_assert(ok, "matching visits the value last given");
}
void check(V& v, mdl const& m) {
  V const& c = v; nb_assert(c.get_type_id() == m.k, "the type id names the alternative last given");
  nb_assert(c.is<nbdl::unresolved>() == (m.k == 0) && c.is<int>() == (m.k == 1) && c.is<std::string>() == (m.k == 2) && c.is<tok>() == (m.k == 3) && c.is<tag>() == (m.k == 4), "is<T> holds for exactly the alternative last given");
  seen(m, [&](auto f) { c.match(f); }); seen(m, [&](auto f) { v.match(f); }); seen(m, [&](auto f) { nbdl::match(c, f); }); seen(m, [&](auto f) { nbdl::match(v, f); });
  int w = 0; nbdl::match(c, nbdl::match_when<int>([&](int const& x) { nb_assert(x == m.i, "match_when visits the value"); w += 1; })); nbdl::match_when<std::string>(c, [&](std::string const& x) { nb_assert(x.size() == m.s.size(), "match_when visits the value"); w += 10; });
  nbdl::match(c, nbdl::match_when<tok>([&](tok const& x) { nb_assert(x.v == m.i, "match_when visits the value"); w += 100; })); nbdl::match(v, nbdl::match_when<tag>([&](auto const&) { w += 1000; })); nbdl::match(v, nbdl::match_when<nbdl::unresolved>([&](auto const&) { w += 10000; })); nbdl::match(v, nbdl::match_when<char>([&](auto const&) { w += 7; }));
  static const int want[] = {10000, 1, 10, 100, 1000}; nb_assert(w == want[m.k], "match_when calls back exactly for the alternative held");
  int n = 0, id = -1; nbdl::bind_variant(c, hana::overload_linearly([&](int t) { ++n; id = t; }, [&](int t, int const& x) { ++n; id = t; nb_assert(m.k == 1 && x == m.i, "binding reads the value"); }, [&](int t, std::string const& x) { ++n; id = t; nb_assert(m.k == 2 && x.size() == m.s.size() && nb_memeq(x.data(), m.s.data(), x.size()), "binding reads the value"); }, [&](int t, tok const& x) { ++n; id = t; nb_assert(m.k == 3 && x.v == m.i, "binding reads the value"); }));
  nb_assert(n == 1 && id == m.k, "binding presents the type id and value once");
}
std::string any_str(const char* n) { return nb_string(nb_choose(nb_param("len", 1) + 1, n), n); }
}
// any sequence of operations on two variants
NB_ENTRY(history) {
  { V x, y; mdl mx, my; check(x, mx);
    unsigned long steps = nb_param("steps", 2);
    for (unsigned long t = 0; t < steps; t++) {
      V& a = x; V& b = y; unsigned long op = nb_choose(15, "op");
      switch (op) {
      case 0: mx = {1, nb_any<int>("i"), ""}; a = mx.i; break;
      case 1: mx = {2, 0, any_str("s")}; a = mx.s; break;
      case 2: mx = {3, nb_any<int>("t"), ""}; a = tok(mx.i); break;
      case 3: mx = {4, 0, ""}; a = tag{}; break;
      case 4: mx = {}; a = nbdl::unresolved{}; break;
      case 5: mx = {}; a = V{}; break;
      case 6: b = a; my = mx; break;
      case 7: a = b; mx = my; break;
      case 8: b = V(a); my = mx; break;
      case 9: { V c(a); check(c, mx); V d(std::move(c)); check(d, mx); b = std::move(d); my = mx; break; }
      case 10: { V& self = a; a = self; break; }
      case 11: { V t1 = std::move(a); a = std::move(b); b = std::move(t1); std::swap(mx, my); break; }
      case 12: if (mx.k == 1 || mx.k == 3) { int nv = nb_any<int>("m"); a.match([&](int& v) { v = nv; }, [&](tok& t) { t.v = nv; }, [](auto&) { }); mx.i = nv; } break;
      case 13: { int id = nb_choose(5, "id"); int nv = nb_any<int>("r"); std::string ns = any_str("rs"); int n = 0; nbdl::bind_variant(id, a, hana::overload_linearly([&](int t) { n += 1; nb_assert(t == id, "id"); }, [&](int t, int& v) { n += 1; v = nv; }, [&](int t, std::string& v) { n += 1; v = ns; }, [&](int t, tok& v) { n += 1; v.v = nv; })); nb_assert(n == 1, "reading binds once"); mx = {id, nv, ns}; break; }
      case 14: { int id = nb_any<int>("id"); nb_assume((id < 0) | (id > 4)); int n = 0; nbdl::bind_variant(id, a, [&](auto&&...) { ++n; }); nb_assert(n == 0, "an id that names no alternative binds nothing"); break; }
      }
      check(x, mx); check(y, my); nb_assert(alive == (mx.k == 3) + (my.k == 3), "exactly one object lives per variant holding it");
    }
    nb_cover(mx.k == 0 ? "end-unresolved" : mx.k == 1 ? "end-int" : mx.k == 2 ? "end-string" : mx.k == 3 ? "end-object" : "end-tag"); }
  nb_assert(alive == 0, "every object was destroyed exactly once");
}
NB_ENTRY(optionals) {
  int i = nb_any<int>("i"); bool c = nb_any<bool>("c"); auto o = nbdl::make_optional(i); auto p = nbdl::make_optional_if(c, i); int n = 0, g = 0;
  o.match([&](int v) { n += v == i ? 1 : 50; }, [&](nbdl::nothing) { n += 100; }); nb_assert(n == 1, "make_optional holds the value"); n = 0;
  p.match([&](int v) { n += v == i ? 1 : 50; }, [&](nbdl::nothing) { g++; }); nb_assert((n == 1) == c && (g == 1) == !c && n + g == 1, "make_optional_if holds the value exactly when asked"); nb_cover(c ? "some" : "none");
  auto t = nbdl::make_optional_if(c, tag{}); n = g = 0; t.match([&](tag const&) { n++; }, [&](nbdl::nothing) { g++; }); nb_assert((n == 1) == c && (g == 1) == !c && n + g == 1, "the same for a type without members");
  nbdl::optional<int> q; nb_assert(q.get_type_id() == 0 && q.is<nbdl::nothing>(), "an optional starts empty");
}
// a variant inside a variant is matched through
NB_ENTRY(nested) {
  using I = nbdl::variant<int, tag>; using O = nbdl::variant<I, std::string>; O o; int k = nb_choose(5, "k"), i = nb_any<int>("i"); std::string s = any_str("s");
  switch (k) { case 0: break; case 1: o = I{}; break; case 2: o = I(i); break; case 3: o = I(tag{}); break; case 4: o = s; break; }
  int calls = 0, kind = -1; nbdl::match(o, hana::overload_linearly([&](nbdl::unresolved const&) { calls++; kind = 0; }, [&](int v) { calls++; kind = 2; nb_assert(v == i, "inner value"); }, [&](tag const&) { calls++; kind = 3; }, [&](std::string const& x) { calls++; kind = 4; nb_assert(x == s, "outer value"); }));
  nb_assert(calls == 1 && kind == (k == 1 ? 0 : k), "matching reaches the innermost value once"); nb_cover("nested");
}
NB_ENTRY(holder) {
  using H = nbdl::variant_holder<nbdl::unresolved, int, std::string, tok, tag>; { H h{}; mdl m; unsigned long steps = nb_param("steps", 2);
    for (unsigned long t = 0; t <= steps; t++) {
      if (t) switch (nb_choose(7, "op")) { case 0: m = {1, nb_any<int>("i"), ""}; h = H(m.i); break; case 1: m = {2, 0, any_str("s")}; h = H(m.s); break; case 2: m = {3, nb_any<int>("t"), ""}; h = H(tok(m.i)); break; case 3: m = {4, 0, ""}; h = H(tag{}); break; case 4: m = {}; h = H{}; break; case 5: { H g(h), f(std::move(g)); h = f; break; }
        case 6: if (m.k == 3) { m.i = nb_any<int>("m"); nbdl::match(h, nbdl::variant_value, hana::overload([&](tok& x) { x.v = m.i; }, nbdl::noop)); } break; }
      H const& c = h; std::size_t id = 99; int n = 0; nbdl::match(c, nbdl::variant_index, [&](std::size_t x) { id = x; ++n; }); nb_assert(n == 1 && id == (std::size_t)m.k, "the index of the alternative held"); seen(m, [&](auto f) { nbdl::match(c, nbdl::variant_value, f); }); seen(m, [&](auto f) { nbdl::match(h, nbdl::variant_value, f); }); nb_assert(alive == (m.k == 3), "one object lives per holder holding it");
    } nb_cover("holder"); }
  nb_assert(alive == 0, "every object was destroyed exactly once");
}
