#include "nb.h"
#include <nbdl/entity.hpp>
#include <nbdl/delta.hpp>
#include <boost/hana/equal.hpp>
#include <string>
namespace hana = boost::hana;
namespace dx {
struct point { int x; int y; };
enum class colour : unsigned char { red, green, blue };
struct rec { int a; std::string s; bool f; point p; colour c; };
struct small { int a; std::string s; };
}
namespace nbdl {
  NBDL_ENTITY(dx::point, x, y);
  NBDL_ENTITY(dx::rec, a, s, f, p, c);
  NBDL_ENTITY(dx::small, a, s);
}
namespace {
using dx::rec; using dx::small;
std::string str(const char* n) { return nb_string(nb_choose(nb_param("len", 2), n), n); }
void make(rec& r) { r.a = nb_any<int>("a"); r.s = str("s"); r.f = nb_any<bool>("f"); r.p.x = nb_any<int>("x"); r.p.y = nb_any<int>("y"); r.c = (dx::colour)nb_any<unsigned char>("c"); }
void make(small& r) { r.a = nb_any<int>("a"); r.s = str("s"); }
bool sameS(const std::string& a, const std::string& b) { return a.size() == b.size() && nb_memeq(a.data(), b.data(), a.size()); }
bool same(const rec& a, const rec& b) { return (a.a == b.a) & sameS(a.s, b.s) & (a.f == b.f) & (a.p.x == b.p.x) & (a.p.y == b.p.y) & (a.c == b.c); }
bool same(const small& a, const small& b) { return (a.a == b.a) & sameS(a.s, b.s); }
// x with the members in which n and o differ replaced by n's
void patch(rec& x, const rec& n, const rec& o) {
  x.a = nb_ite(n.a != o.a, (unsigned)n.a, (unsigned)x.a); if (!sameS(n.s, o.s)) x.s = n.s; x.f = (n.f != o.f) ? n.f : x.f;
  bool d = (n.p.x != o.p.x) | (n.p.y != o.p.y); x.p.x = nb_ite(d, (unsigned)n.p.x, (unsigned)x.p.x); x.p.y = nb_ite(d, (unsigned)n.p.y, (unsigned)x.p.y); x.c = (dx::colour)nb_ite(n.c != o.c, (unsigned)n.c, (unsigned)x.c);
}
void patch(small& x, const small& n, const small& o) { x.a = nb_ite(n.a != o.a, (unsigned)n.a, (unsigned)x.a); if (!sameS(n.s, o.s)) x.s = n.s; }
template <typename E> void laws() {
  E n, o, x; make(n); make(o); make(x);
  auto d = nbdl::make_delta<nbdl::delta_tag>(n, o); auto want = x; patch(want, n, o);
  { auto y = x; bool r = nbdl::apply_delta(d, y); nb_assert(same(y, want), "a delta sets exactly the members it holds, to its values"); nb_assert(r == !same(x, want), "applying reports whether anything changed");
    bool r2 = nbdl::apply_delta(d, y); nb_assert(!r2 & same(y, want), "applying again changes nothing"); nb_cover(r ? "changed" : "unchanged"); }
  { auto y = o; nbdl::apply_delta(d, y); nb_assert(same(y, n), "the difference of two values takes one to the other"); }
  { auto f = nbdl::make_delta<nbdl::delta_tag>(n); auto y = x; bool r = nbdl::apply_delta(f, y); nb_assert(same(y, n) & (r == !same(x, n)), "a full delta makes any value equal to its source"); }
  { nbdl::delta<E> e; auto y = x; bool r = nbdl::apply_delta(e, y); nb_assert(!r & same(y, x), "an empty delta is the identity");
    auto e2 = nbdl::make_delta<nbdl::delta_tag>(x, x); bool r2 = nbdl::apply_delta(e2, y); nb_assert(!r2 & same(y, x), "the difference of a value to itself is empty"); }
}
// an old and a new value; which members differ is forked over, so that the presence of each member is concrete
template <typename T> void differ(T& n, T& o) { if (nb_choose(2, "set")) nb_assume(n != o); else n = o; }
void differ(std::string& n, std::string& o) { if (nb_choose(2, "set")) nb_assume(!sameS(n, o)); else n = o; }
void differ(dx::point& n, dx::point& o) { if (nb_choose(2, "set")) nb_assume((n.x != o.x) | (n.y != o.y)); else n = o; }
void make2(rec& n, rec& o) { make(n); make(o); differ(n.a, o.a); differ(n.s, o.s); differ(n.f, o.f); differ(n.p, o.p); differ(n.c, o.c); }
void make2(small& n, small& o) { make(n); make(o); differ(n.a, o.a); differ(n.s, o.s); }
// deltas over two-valued members keep the number of paths down while every subset of members occurs
template <typename E> void merge() {
  unsigned k = nb_param("k", 2); E x; make(x); auto seq = x; nbdl::delta<E> acc; bool any = false;
  for (unsigned i = 0; i < k; i++) {
    E n, o; make2(n, o); auto d = nbdl::make_delta<nbdl::delta_tag>(n, o);
    nbdl::apply_delta(d, seq);
    nbdl::apply_delta(d, acc);
    auto y = x; nbdl::apply_delta(acc, y); nb_assert(same(y, seq), "a merged delta acts like the deltas in turn");
    auto acc2 = acc; nbdl::apply_delta(d, acc2); auto z = x; nbdl::apply_delta(acc2, z); nb_assert(same(z, seq), "merging the same delta again changes nothing");
    nbdl::delta<E> none; bool r0 = nbdl::apply_delta(none, acc2); auto z2 = x; nbdl::apply_delta(acc2, z2); nb_assert(!r0 & same(z2, seq), "merging an empty delta changes nothing");
  }
  nb_cover("merged");
}
}
NB_ENTRY(laws_rec) { laws<rec>(); }
NB_ENTRY(laws_small) { laws<small>(); }
NB_ENTRY(merge_rec) { merge<rec>(); }
NB_ENTRY(merge_small) { merge<small>(); }
