#include "nb.h"
#include <nbdl/util/base64_encode.hpp>
#include <nbdl/util/base64_decode.hpp>
#include <vector>
#include <array>
namespace {
char const* alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// RFC 4648 section 4, written bit by bit
void reference_encode(unsigned char const* in, unsigned long n, std::string& out) {
  out.clear();
  for (unsigned long i = 0; i < n; i += 3) {
    unsigned long take = n - i < 3 ? n - i : 3;
    unsigned v = 0;
    for (unsigned long k = 0; k < 3; k++) v = (v << 8) | (k < take ? in[i + k] : 0u);
    for (unsigned long k = 0; k < 4; k++)
      out.push_back(k <= take ? alphabet[(v >> (18 - 6 * k)) & 63u] : '=');
  }
}
template <typename Buffer>
void check(unsigned long n) {
  Buffer buf(n, 0);
  if (n) nb_make_symbolic(buf.data(), n, "in");
  std::string ref; 
  reference_encode(reinterpret_cast<unsigned char const*>(buf.data()), n, ref);
  std::string enc = nbdl::util::base64_encode(buf);
  nb_assert(enc.size() == 4 * ((n + 2) / 3), "encoded length is 4*ceil(n/3)");
  nb_assert(nb_memeq(enc.data(), ref.data(), ref.size()), "encoding equals RFC 4648");
  nb_observe_mem("enc", enc.data(), enc.size());
  auto dec = nbdl::util::base64_decode(enc);
  nb_assert(dec.size() == n, "decoded length equals the input length");
  nb_assert(nb_memeq(dec.data(), buf.data(), n), "decode(encode(x)) == x");
  std::vector<unsigned char> out2(3, 7);
  bool ok = nbdl::util::base64_decode(enc, out2);
  nb_assert(ok, "output-buffer form accepts its own encoding");
  nb_assert(out2.size() == n, "output-buffer form: length");
  nb_assert(nb_memeq(out2.data(), buf.data(), n), "output-buffer form: contents");
  std::string out3("previous contents");
  bool ok3 = nbdl::util::base64_decode(enc, out3);
  nb_assert(ok3 && out3.size() == n, "string output: length");
  nb_assert(nb_memeq(out3.data(), buf.data(), n), "string output: contents");
  nb_cover("end");
}
}
NB_ENTRY(roundtrip_uchar) { check<std::vector<unsigned char>>(nb_param("n", 3)); }
NB_ENTRY(roundtrip_char) { check<std::string>(nb_param("n", 3)); }
