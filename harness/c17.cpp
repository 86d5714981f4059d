#include "json_types.h"
#include <nbdl/message.hpp>
namespace {
template <typename T> void trip() {
  T x{}; gen(x, "x"); T y{}; if (nb_param("prefilled", 1) && nb_choose(2, "prefilled")) gen(y, "y");
  std::string t = to_string(x);
  T const& cx = x; nb_assert(eq(to_string(cx), t), "writing a constant object gives the same text");
  try { from_string(t, y); } catch (...) { nb_fail("text that was written can be read back"); }
  nb_assert(eq(x, y), "reading back gives the value that was written");
  nb_assert(eq(to_string(y), t), "the value read back is written as the same text");
  nb_cover("end");
}
}
NB_ENTRY(scalars) { trip<jx::scal>(); }
NB_ENTRY(plain_int) { trip<int>(); } NB_ENTRY(plain_bool) { trip<bool>(); } NB_ENTRY(plain_u64) { trip<uint64_t>(); } NB_ENTRY(plain_double) { trip<double>(); }
NB_ENTRY(integers) { trip<jx::ints>(); }
NB_ENTRY(enumerations) { trip<jx::enums>(); }
NB_ENTRY(strings) { trip<jx::text>(); }
NB_ENTRY(vec_int) { trip<std::vector<int>>(); } NB_ENTRY(list_int) { trip<std::list<int>>(); } NB_ENTRY(vec_str) { trip<std::vector<nbdl::string>>(); } NB_ENTRY(vec_vec) { trip<std::vector<std::vector<int>>>(); } NB_ENTRY(vec_ent) { trip<std::vector<jx::point>>(); } NB_ENTRY(vec_buf) { trip<std::vector<jx::bytes>>(); } NB_ENTRY(vec_var) { trip<std::vector<jx::any>>(); } NB_ENTRY(vec_opt) { trip<std::vector<nbdl::optional<int>>>(); }
NB_ENTRY(buffers) { trip<jx::bufs>(); } NB_ENTRY(buffer) { trip<jx::bytes>(); } NB_ENTRY(uid) { trip<nbdl::uid>(); }
NB_ENTRY(nested) { trip<jx::nest>(); } NB_ENTRY(unary_entity) { trip<jx::one>(); }
NB_ENTRY(variants) { trip<jx::holds>(); } NB_ENTRY(variant) { trip<jx::any>(); }
NB_ENTRY(variant_of_variant) { trip<nbdl::variant<jx::any, nbdl::optional<bool>>>(); }
NB_ENTRY(seq0) { trip<hana::tuple<>>(); } NB_ENTRY(seq1) { trip<hana::tuple<int>>(); } NB_ENTRY(seq2) { trip<hana::tuple<int, nbdl::string>>(); } NB_ENTRY(seq3) { trip<hana::tuple<jx::point, nbdl::string, jx::any>>(); } NB_ENTRY(seq_vec1) { trip<hana::tuple<std::vector<int>>>(); } NB_ENTRY(seq_nested) { trip<hana::tuple<hana::tuple<int, bool>, hana::tuple<nbdl::string>, std::vector<hana::tuple<int, int>>>>(); }
namespace {
template <typename E> void delta() {
  E o{}, n{}, x{}; gen(o, "o"); gen(n, "n"); gen(x, "x"); auto d = nb_choose(2, "full") ? nbdl::make_delta<nbdl::delta_tag>(n) : nbdl::make_delta<nbdl::delta_tag>(n, o);
  nbdl::delta<E> r{}; if (nb_choose(2, "prefilled")) r = nbdl::make_delta<nbdl::delta_tag>(x);
  std::string t = to_string(d); try { from_string(t, r); } catch (...) { nb_fail("a delta that was written can be read back"); }
  hana::for_each(hana::zip(d.storage, r.storage), [&](auto const& p) { nb_assert(eq(hana::at_c<0>(p), hana::at_c<1>(p)), "a delta read back holds the same members"); });
  E a = x, b = x; bool ra = nbdl::apply_delta(d, a), rb = nbdl::apply_delta(r, b); nb_assert(eq(a, b) & (ra == rb), "a delta read back acts the same"); nb_cover("delta");
}
}
NB_ENTRY(delta_point) { delta<jx::point>(); } NB_ENTRY(delta_one) { delta<jx::one>(); } NB_ENTRY(delta_text) { delta<jx::onestr>(); }
