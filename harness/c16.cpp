#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/binder/hash.hpp>
#include <boost/hana/equal.hpp>
#include <string>
#include <vector>
namespace hana = boost::hana;
namespace ex {
struct point { int x; long y; };
struct rec { int a; std::string s; bool f; point p; nbdl::uid id; };
struct tag_a { }; struct tag_b { };
}
namespace nbdl { NBDL_ENTITY(ex::point, x, y); NBDL_ENTITY(ex::rec, a, s, f, p, id); }
namespace {
nbdl::uid any_uid(const char* n) { nbdl::uid u{}; nb_make_symbolic(&*u.begin(), 16, n); return u; }
bool eqb(const nbdl::uid& a, const nbdl::uid& b) { bool r = true; for (int i = 0; i < 16; i++) r = r & (a[i] == b[i]); return r; }
std::string str(const char* n, unsigned long max) { return nb_string(nb_choose(max + 1, n), n); }
bool eqs(const std::string& a, const std::string& b) { return a.size() == b.size() && nb_memeq(a.data(), b.data(), a.size()); }
}
NB_ENTRY(uids) {
  auto x = any_uid("x"), y = any_uid("y"); bool same = eqb(x, y);
  nb_assert((x == y) == same, "unique ids are equal exactly when their bytes are"); nb_assert((x != y) == !same, "!= is the negation of =="); nb_assert((y == x) == same, "symmetric");
  nb_assert(hana::equal(x, y) == same, "hana::equal on unique ids");
  auto c = x; nb_assert(c == x && hana::equal(c, x) && std::hash<nbdl::uid>{}(c) == std::hash<nbdl::uid>{}(x), "a copy is equal and hashes the same");
  nb_assert(nbdl::binder::hash(c) == nbdl::binder::hash(x), "a copy has the same binder hash");
  { auto a = x, b = y; using std::swap; swap(a, b); nb_assert(eqb(a, y) & eqb(b, x), "swap exchanges two ids"); }
  { nbdl::unique_key<ex::tag_a> k1(x), k2(y); nb_assert((k1 == k2) == same, "keys are equal exactly when their ids are"); }
  { nbdl::key<ex::tag_a> k1(nb_any<std::uint32_t>("k1")), k2(nb_any<std::uint32_t>("k2")); nb_assert((k1 == k2) == (k1.value == k2.value), "integer keys"); }
  nb_cover("uids");
}
NB_ENTRY(uid_hash_any) {
  auto x = any_uid("x"), y = any_uid("y"); if (x == y) { nb_assert(std::hash<nbdl::uid>{}(x) == std::hash<nbdl::uid>{}(y), "equal ids have equal hashes, whatever they hold"); nb_cover("uids-eq"); } else nb_cover("uids-ne");
}
// equal unique ids hash the same: one byte position at a time
NB_ENTRY(uid_hash) {
  auto x = any_uid("x"), y = x; unsigned long i = nb_choose(16, "i"); y[i] = nb_any<unsigned char>("other");
  if (x == y) { nb_assert(std::hash<nbdl::uid>{}(x) == std::hash<nbdl::uid>{}(y), "equal ids have equal hashes"); nb_assert(nbdl::binder::hash(x) == nbdl::binder::hash(y), "equal ids have equal binder hashes"); nb_assert(y[i] == x[i], "equal"); nb_cover("uid-eq"); }
  else { nb_assert(y[i] != x[i], "unequal"); nb_cover("uid-ne"); }
}
NB_ENTRY(keys) {
  std::string a = str("a", nb_param("len", 3)), b = str("b", nb_param("len", 3)); nbdl::key<ex::tag_a, std::string> k1(a), k2(b); bool r = k1 == k2; nb_assert(r == eqs(a, b), "string keys are equal exactly when the strings are"); nb_cover(r ? "key-eq" : "key-ne");
}
namespace {
ex::rec any_rec() { ex::rec r{}; r.a = nb_any<int>("a"); r.s = str("s", nb_param("len", 2)); r.f = nb_any<bool>("f"); r.p.x = nb_any<int>("px"); r.p.y = nb_any<long>("py"); r.id = any_uid("id"); return r; }
bool eqr(const ex::rec& a, const ex::rec& b) { return (a.a == b.a) & eqs(a.s, b.s) & (a.f == b.f) & (a.p.x == b.p.x) & (a.p.y == b.p.y) & eqb(a.id, b.id); }
// which component may differ is forked over; 7 is a copy
void vary(ex::rec& y, unsigned long w) { switch (w) { case 0: y.a = nb_any<int>("a2"); break; case 1: y.s = str("s2", nb_param("len", 2)); break; case 2: y.f = nb_any<bool>("f2"); break; case 3: y.p.x = nb_any<int>("px2"); break; case 4: y.p.y = nb_any<long>("py2"); break; case 5: y.id[nb_choose(16, "byte")] = nb_any<unsigned char>("id2"); break; } }
}
NB_ENTRY(entities) {
  auto x = any_rec(), y = any_rec(); bool r = hana::equal(x, y); nb_assert(r == eqr(x, y), "entities are equal exactly when all members are"); nb_assert(hana::equal(y, x) == r && hana::not_equal(x, y) == !r, "symmetric"); if (r) nb_assert(nbdl::binder::hash(x) == nbdl::binder::hash(y), "equal entities hash the same, whatever they hold"); nb_cover(r ? "rec-eq" : "rec-ne");
}
NB_ENTRY(entity_component) {
  auto x = any_rec(), y = x; vary(y, nb_choose(7, "which")); bool r = hana::equal(x, y); nb_assert(r == eqr(x, y), "values that differ in one component are unequal, copies equal");
  if (r) nb_assert(nbdl::binder::hash(x) == nbdl::binder::hash(y), "equal entities hash the same"); nb_cover(r ? "one-eq" : "one-ne");
}
NB_ENTRY(paths) {
  auto id = any_uid("id"); int i = nb_any<int>("i"); std::string s = str("s", nb_param("len", 2)); auto x = hana::make_tuple(i, s, id); auto y = x;
  switch (nb_choose(4, "which")) { case 0: y[hana::size_c<0>] = nb_any<int>("i2"); break; case 1: y[hana::size_c<1>] = str("s2", nb_param("len", 2)); break; case 2: y[hana::size_c<2>][nb_choose(16, "byte")] = nb_any<unsigned char>("id2"); break; }
  bool r = hana::equal(x, y), want = (x[hana::size_c<0>] == y[hana::size_c<0>]) & eqs(x[hana::size_c<1>], y[hana::size_c<1>]) & eqb(x[hana::size_c<2>], y[hana::size_c<2>]);
  nb_assert(r == want, "paths are equal exactly when all keys are"); if (r) nb_assert(nbdl::binder::hash(x) == nbdl::binder::hash(y), "equal paths hash the same"); nb_cover(r ? "path-eq" : "path-ne");
}
NB_ENTRY(variants) {
  using V = nbdl::variant<int, std::string, ex::point, ex::tag_a, ex::tag_b, long, bool>; V x, y; unsigned long kx = nb_choose(8, "kx"), ky = nb_choose(8, "ky"); int ix = nb_any<int>("ix"), iy = nb_any<int>("iy"); std::string sx = str("sx", 2), sy = str("sy", nb_param("len", 2)); ex::point px{nb_any<int>("pxx"), nb_any<long>("pxy")}, py{nb_any<int>("pyx"), nb_any<long>("pyy")}; long lx = nb_any<long>("lx"), ly = nb_any<long>("ly");
  auto set = [](V& v, unsigned long k, int i, std::string const& s, ex::point p, long l) { switch (k) { case 1: v = i; break; case 2: v = s; break; case 3: v = p; break; case 4: v = ex::tag_a{}; break; case 5: v = ex::tag_b{}; break; case 6: v = l; break; case 7: v = (l & 1) != 0; break; } };
  set(x, kx, ix, sx, px, lx); set(y, ky, iy, sy, py, ly);
  bool want = kx == ky && (kx != 1 || ix == iy) && (kx != 2 || eqs(sx, sy)) && (kx != 3 || ((px.x == py.x) & (px.y == py.y))) && (kx != 6 || lx == ly) && (kx != 7 || (lx & 1) == (ly & 1));
  bool r = hana::equal(x, y); nb_assert(r == want, "variants are equal exactly when alternative and value are"); nb_assert(hana::equal(y, x) == want, "symmetric"); auto c = x; nb_assert(hana::equal(c, x), "a copy is equal"); nb_cover(r ? "var-eq" : "var-ne");
}
// equal variants have equal hashes
NB_ENTRY(variant_hashes) {
  using V = nbdl::variant<int, ex::point, long, bool>; V x, y; unsigned long k = nb_choose(4, "k"); long i = nb_any<long>("i"); ex::point p{nb_any<int>("px"), nb_any<int>("py")};
  auto set = [&](V& v) { switch (k) { case 0: v = int(i); break; case 1: v = p; break; case 2: v = i; break; default: v = bool(i & 1); } };
  if (nb_choose(2, "before")) y = 7L; set(x); set(y); V z = x; std::size_t h = nbdl::binder::hash(x); nb_assert(h == nbdl::binder::hash(y), "equal variants hash the same"); nb_assert(h == nbdl::binder::hash(z), "a copy hashes the same"); nb_cover("variant-hash");
}
NB_ENTRY(containers) {
  unsigned long n = nb_choose(nb_param("len", 3) + 1, "n"), m = nb_choose(nb_param("len", 3) + 1, "m"); std::vector<int> x, y; for (unsigned long i = 0; i < n; i++) x.push_back(nb_any<int>("x")); for (unsigned long i = 0; i < m; i++) y.push_back(nb_any<int>("y"));
  if (x == y) { nb_assert(nbdl::binder::hash(x) == nbdl::binder::hash(y), "equal sequences hash the same"); nb_cover("seq-eq"); } else nb_cover("seq-ne");
}
