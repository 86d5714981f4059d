#include "json_docs.h"
namespace {
template <typename T> void read() {
  odd_left = nb_param("odd", 1); Value d = doc<T>(); T x{}; if (nb_param("prefilled", 0)) gen(x, "before");
  bool ok = true; try { from_string(text_of(d), x); } catch (std::exception const&) { ok = false; }
  if (ok) { nb_assert(holds<T>(d, x), "what is read is exactly what the document holds"); nb_cover("read"); }
  else { nb_assert(!fits<T>(d), "a document of the right shape is read"); nb_cover("refused"); }
}
}
NB_ENTRY(scalars) { read<jx::scal>(); } NB_ENTRY(integers) { read<jx::ints>(); } NB_ENTRY(enumerations) { read<jx::enums>(); } NB_ENTRY(strings) { read<jx::text>(); }
NB_ENTRY(plain_int) { read<int>(); } NB_ENTRY(plain_u) { read<unsigned>(); } NB_ENTRY(plain_bool) { read<bool>(); } NB_ENTRY(plain_i64) { read<int64_t>(); } NB_ENTRY(plain_u64) { read<uint64_t>(); } NB_ENTRY(plain_i8) { read<signed char>(); } NB_ENTRY(plain_u16) { read<unsigned short>(); } NB_ENTRY(plain_double) { read<double>(); } NB_ENTRY(plain_text) { read<nbdl::string>(); }
NB_ENTRY(vec_int) { read<std::vector<int>>(); } NB_ENTRY(list_str) { read<std::list<nbdl::string>>(); } NB_ENTRY(vec_vec) { read<std::vector<std::vector<int>>>(); } NB_ENTRY(vec_ent) { read<std::vector<jx::point>>(); } NB_ENTRY(vec_var) { read<std::vector<jx::any>>(); }
NB_ENTRY(buffer) { read<jx::bytes>(); } NB_ENTRY(array1) { read<std::array<unsigned char, 1>>(); } NB_ENTRY(array2) { read<std::array<unsigned char, 2>>(); } NB_ENTRY(array3) { read<std::array<unsigned char, 3>>(); } NB_ENTRY(array5) { read<std::array<unsigned char, 5>>(); } NB_ENTRY(uid) { read<nbdl::uid>(); }
NB_ENTRY(nested) { read<jx::nest>(); } NB_ENTRY(unary_entity) { read<jx::one>(); }
NB_ENTRY(variants) { read<jx::holds>(); } NB_ENTRY(variant) { read<jx::any>(); } NB_ENTRY(variant_of_variant) { read<nbdl::variant<jx::any, nbdl::optional<bool>>>(); }
NB_ENTRY(seq0) { read<hana::tuple<>>(); } NB_ENTRY(seq1) { read<hana::tuple<int>>(); } NB_ENTRY(seq2) { read<hana::tuple<int, nbdl::string>>(); } NB_ENTRY(seq3) { read<hana::tuple<jx::point, nbdl::string, jx::any>>(); } NB_ENTRY(seq_nested) { read<hana::tuple<hana::tuple<int, bool>, hana::tuple<nbdl::string>, std::vector<hana::tuple<int, int>>>>(); }
NB_ENTRY(not_json) { static const char* const t[] = {"", "}", "{", "[", "]"}; unsigned k = nb_choose(5, "text"); int x = 3; bool ok = true; try { from_string(std::string(t[k]), x); } catch (std::exception const&) { ok = false; } nb_assert(!ok, "text that is no document is refused"); nb_cover("not-json"); }
