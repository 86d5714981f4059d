#include "nb.h"
#include <nbdl/util/base64_encode.hpp>
#include <nbdl/util/base64_decode.hpp>
#include <array>
#include <vector>
namespace {
// 0..63 for alphabet bytes, 64 otherwise (branch free)
unsigned value_of(unsigned char c) {
  unsigned long v = 64;
  v = nb_ite((c >= 'A') & (c <= 'Z'), c - 'A', v);
  v = nb_ite((c >= 'a') & (c <= 'z'), c - 'a' + 26, v);
  v = nb_ite((c >= '0') & (c <= '9'), c - '0' + 52, v);
  v = nb_ite(c == '+', 62, v);
  v = nb_ite(c == '/', 63, v);
  return static_cast<unsigned>(v);
}
template <typename Bytes>
bool well_formed(Bytes const& s, unsigned long n, unsigned pads) { // with exactly `pads` padding bytes at the end
  if (n % 4 != 0 || n < pads) return false;
  bool ok = true;
  for (unsigned long i = 0; i < n; i++) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    ok = ok & (i < n - pads ? value_of(c) < 64 : c == '=');
  }
  return ok;
}
// expected bytes of a well-formed text
template <typename Bytes>
std::vector<unsigned char> expected(Bytes const& s, unsigned long n, unsigned pads) {
  std::vector<unsigned char> out;
  for (unsigned long i = 0; i < n; i += 4) {
    unsigned v = 0;
    for (int k = 0; k < 4; k++) v = (v << 6) | (value_of(static_cast<unsigned char>(s[i + k])) & 63u);
    unsigned cnt = i + 4 == n ? 3 - pads : 3;
    for (unsigned k = 0; k < cnt; k++) out.push_back(static_cast<unsigned char>(v >> (16 - 8 * k)));
  }
  return out;
}
template <typename Input>
int classify(Input const& s, unsigned long n) { // -1 malformed, else number of pads
  if (n == 0) return 0;
  if (well_formed(s, n, 0)) return 0;
  if (well_formed(s, n, 1)) return 1;
  if (well_formed(s, n, 2)) return 2;
  return -1;
}
template <typename Input>
Input make(unsigned long n) { Input s; s.resize(n); if (n) nb_make_symbolic(s.data(), n, "text"); return s; }

template <typename Input>
void returning() {
  unsigned long n = nb_param("n", 4);
  Input s = make<Input>(n); Input copy = s;
  auto out = nbdl::util::base64_decode(s);
  nb_observe("size", out.size());
  int pads = classify(copy, n);
  if (pads < 0) { nb_cover("ret-reject"); nb_assert(out.empty(), "malformed text decodes to nothing"); }
  else { nb_cover("ret-accept"); auto e = expected(copy, n, pads);
    nb_assert(out.size() == e.size(), "decoded length"); nb_assert(nb_memeq(out.data(), e.data(), e.size()), "decoded bytes"); }
  nb_assert(nb_memeq(s.data(), copy.data(), n), "input unchanged");
}
template <typename Input, typename Output>
void growing() {
  unsigned long n = nb_param("n", 4);
  Input s = make<Input>(n); Input copy = s;
  Output out; out.resize(nb_param("pre", 0), 'x');
  bool ok = nbdl::util::base64_decode(s, out);
  nb_observe("ok", ok);
  int pads = classify(copy, n);
  if (pads < 0) { nb_cover("grow-reject"); nb_assert(!ok, "malformed text is refused"); }
  else { nb_cover("grow-accept"); auto e = expected(copy, n, pads);
    nb_assert(ok, "well-formed text is accepted");
    nb_assert(out.size() == e.size(), "decoded length"); nb_assert(nb_memeq(out.data(), e.data(), e.size()), "decoded bytes"); }
}
template <unsigned long M>
void fixed() {
  unsigned long n = nb_param("n", 4);
  std::string s = make<std::string>(n); std::string copy = s;
  std::array<unsigned char, M + 1> guard; guard.fill(0xEE);   // one extra byte behind
  struct Fixed { unsigned char* p; using value_type = unsigned char; unsigned char* begin() { return p; } unsigned char* end() { return p + M; } unsigned long size() const { return M; } };
  std::array<unsigned char, M> out; out.fill(0xEE);
  bool ok = nbdl::util::base64_decode(s, out);
  nb_observe("ok", ok);
  int pads = classify(copy, n);
  unsigned long want = pads < 0 ? 0 : n / 4 * 3 - pads;
  if (pads < 0) { nb_cover("fixed-malformed"); nb_assert(!ok, "malformed text is refused"); }
  else if (want != M) { nb_cover("fixed-size-mismatch"); nb_assert(!ok, "a fixed output of another length is refused");
    bool same = true; for (auto c : out) same = same & (c == 0xEE); nb_assert(same, "a refused output is left untouched"); }
  else { nb_cover("fixed-accept"); auto e = expected(copy, n, pads); nb_assert(ok, "matching fixed output is accepted"); nb_assert(nb_memeq(out.data(), e.data(), M), "decoded bytes"); }
}
}
NB_ENTRY(ret_string) { returning<std::string>(); }
NB_ENTRY(ret_vector) { returning<std::vector<unsigned char>>(); }
NB_ENTRY(grow_string_vector) { growing<std::string, std::vector<unsigned char>>(); }
NB_ENTRY(grow_vector_string) { growing<std::vector<unsigned char>, std::string>(); }
NB_ENTRY(fixed1) { fixed<1>(); }
NB_ENTRY(fixed2) { fixed<2>(); }
NB_ENTRY(fixed3) { fixed<3>(); }
NB_ENTRY(fixed4) { fixed<4>(); }
NB_ENTRY(fixed6) { fixed<6>(); }
