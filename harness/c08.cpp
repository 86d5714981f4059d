#include "nb.h"
#include <nbdl/detail/beast_sha1.hpp>
#include <array>
#include <vector>
namespace {
namespace s1 = nbdl::detail::beast_sha1;
using u32 = std::uint32_t; using u8 = unsigned char;
u32 rotl(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
// FIPS 180-4, 6.1.2
void compress(u32 (&h)[5], const u8* p) {
  u32 w[80];
  for (int t = 0; t < 16; t++) w[t] = (u32(p[4 * t]) << 24) | (u32(p[4 * t + 1]) << 16) | (u32(p[4 * t + 2]) << 8) | p[4 * t + 3];
  for (int t = 16; t < 80; t++) w[t] = rotl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
  u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
  for (int t = 0; t < 80; t++) {
    u32 f, k;
    if (t < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999; }
    else if (t < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
    else if (t < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc; }
    else { f = b ^ c ^ d; k = 0xca62c1d6; }
    u32 x = rotl(a, 5) + f + e + k + w[t];
    e = d; d = c; c = rotl(b, 30); b = a; a = x;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
// state h after the whole blocks, the n < 64 remaining bytes, and the length of the whole message in bytes
std::array<u8, 20> finish_ref(u32 (&h)[5], const u8* rest, unsigned long n, std::uint64_t total) {
  u8 pad[128] = {}; for (unsigned long i = 0; i < n; i++) pad[i] = rest[i];
  pad[n] = 0x80; unsigned long len = n + 9 <= 64 ? 64 : 128; std::uint64_t bits = total * 8;
  for (int i = 0; i < 8; i++) pad[len - 1 - i] = u8(bits >> (8 * i));
  compress(h, pad); if (len == 128) compress(h, pad + 64);
  std::array<u8, 20> out; for (int i = 0; i < 5; i++) for (int k = 0; k < 4; k++) out[4 * i + k] = u8(h[i] >> (24 - 8 * k));
  return out;
}
std::array<u8, 20> sha1_ref(const u8* p, unsigned long n) {
  u32 h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; unsigned long i = 0;
  for (; i + 64 <= n; i += 64) compress(h, p + i);
  return finish_ref(h, p + i, n - i, n);
}
}
// The compression of one block (block_compression) is compared with FIPS 180-4 for every chaining value and block.
// Chunking and padding are compared with what the implementation's own compression makes of the explicitly padded
// message given as whole blocks; together they give the FIPS digest.  A context without the members used here is
// compared with the FIPS reference directly.
template <typename C> constexpr bool known = requires (C& c) { c.blocks = 1ul; c.digest[4] = 1u; c.buflen = 0ul; };
template <typename C> std::array<u8, 20> digest_of(const C& c) { std::array<u8, 20> out; for (int i = 0; i < 5; i++) for (int k = 0; k < 4; k++) out[4 * i + k] = u8(c.digest[i] >> (24 - 8 * k)); return out; }
// the 64 or 128 bytes that end a message of total bytes, the last n < 64 of which are rest
std::vector<u8> padded(const u8* rest, unsigned long n, std::uint64_t total) {
  std::vector<u8> pad(n + 9 <= 64 ? 64 : 128, 0); for (unsigned long i = 0; i < n; i++) pad[i] = rest[i];
  pad[n] = 0x80; for (int i = 0; i < 8; i++) pad[pad.size() - 1 - i] = u8((total * 8) >> (8 * i));
  return pad;
}
template <typename C> std::array<u8, 20> expected(u32 const (&h0)[5], const std::vector<u8>& m, std::uint64_t before) {
  unsigned long w = m.size() / 64 * 64; std::vector<u8> end = padded(m.data() + w, m.size() - w, before + m.size());
#ifndef NB_NATIVE
  if constexpr (known<C>) {
    C ref; s1::init(ref); for (int i = 0; i < 5; i++) ref.digest[i] = h0[i];
    s1::update(ref, m.data(), w); s1::update(ref, end.data(), end.size()); return digest_of(ref);
  }
#endif
  u32 h[5]; for (int i = 0; i < 5; i++) h[i] = h0[i];
  for (unsigned long i = 0; i < w; i += 64) compress(h, m.data() + i);
  for (unsigned long i = 0; i < end.size(); i += 64) compress(h, end.data() + i);
  struct { u32 digest[5]; } r; for (int i = 0; i < 5; i++) r.digest[i] = h[i];
  return digest_of(r);
}
const u32 H0[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
template <typename C> void block_impl() {
  if constexpr (known<C>) {
    C ctx; s1::init(ctx); u32 h[5]; nb_make_symbolic(h, sizeof h, "chain"); for (int i = 0; i < 5; i++) ctx.digest[i] = h[i];
    std::vector<u8> m(64); nb_make_symbolic(m.data(), 64, "block"); s1::update(ctx, m.data(), 64); compress(h, m.data());
    bool ok = true; for (int i = 0; i < 5; i++) ok = ok & (ctx.digest[i] == h[i]);
    nb_assert(ok, "one block changes the chaining value as FIPS 180-4 says"); nb_assert(ctx.blocks == 1 && ctx.buflen == 0, "one block is counted");
    nb_observe("h0", h[0]);
  }
  nb_cover("block");
}
NB_ENTRY(block_compression) { block_impl<s1::sha1_context>(); }
// one message of n bytes in three updates: a bytes, b bytes, the rest; the context was used before when dirty=1
NB_ENTRY(chunked) {
  unsigned long n = nb_param("n", 3), a = nb_param("a", 0), b = nb_param("b", 0);
  std::vector<u8> m(n); if (n) nb_make_symbolic(m.data(), n, "message");
  struct Guarded { u8 before[8]; s1::sha1_context ctx; u8 after[8]; } g;
  for (auto& c : g.before) c = 0xA5; for (auto& c : g.after) c = 0xA5;
  if (nb_param("dirty", 0)) { u8 junk[70]; nb_make_symbolic(junk, sizeof junk, "junk"); s1::init(g.ctx); s1::update(g.ctx, junk, sizeof junk); if (nb_param("dirty", 0) == 2) { u8 d[20]; s1::finish(g.ctx, d); } }
  s1::init(g.ctx);
  // each piece in its own allocation: an access outside the piece is an invalid access
  std::vector<u8> p1(m.begin(), m.begin() + a), p2(m.begin() + a, m.begin() + a + b), p3(m.begin() + a + b, m.end());
  s1::update(g.ctx, p1.data(), p1.size()); if (nb_param("empty", 0)) s1::update(g.ctx, m.data(), 0);
  s1::update(g.ctx, p2.data(), p2.size()); s1::update(g.ctx, p3.data(), p3.size());
  std::vector<u8> digest(20, 0);
  s1::finish(g.ctx, digest.data());
  auto want = expected<s1::sha1_context>(H0, m, 0);
  nb_observe_mem("digest", digest.data(), 20);
  nb_assert(nb_memeq(digest.data(), want.data(), 20), "digest is the FIPS 180-4 SHA-1 of the whole message");
  bool ok = true; for (auto c : g.before) ok = ok & (c == 0xA5); for (auto c : g.after) ok = ok & (c == 0xA5);
  nb_assert(ok, "nothing outside the context is written");
  nb_cover("digest");
}
// against the FIPS reference directly
NB_ENTRY(direct) {
  unsigned long n = nb_param("n", 3); std::vector<u8> m(n); if (n) nb_make_symbolic(m.data(), n, "message");
  s1::sha1_context ctx; s1::init(ctx); s1::update(ctx, m.data(), n); u8 d[20]; s1::finish(ctx, d); auto want = sha1_ref(m.data(), n);
  nb_assert(nb_memeq(d, want.data(), 20), "digest is the FIPS 180-4 SHA-1"); nb_cover("direct");
}
// the digest of a message so long that only the state after its whole blocks is represented: any chaining
// value, any block count, n remaining bytes
template <typename C> void long_impl() {
  if constexpr (known<C>) {
    C ctx; s1::init(ctx);
    u32 h[5]; nb_make_symbolic(h, sizeof h, "chain"); std::uint64_t k = nb_range(1, (1ull << 55) - 1, "blocks");
    for (int i = 0; i < 5; i++) ctx.digest[i] = h[i]; ctx.blocks = k;
    unsigned long n = nb_param("n", 3); std::vector<u8> m(n); if (n) nb_make_symbolic(m.data(), n, "message");
    s1::update(ctx, m.data(), n); auto want = expected<C>(h, m, k * 64);
    u8 digest[20]; s1::finish(ctx, digest); nb_observe_mem("digest", digest, 20);
    nb_assert(nb_memeq(digest, want.data(), 20), "digest of a message of any length");
  }
  nb_cover("long");
}
NB_ENTRY(long_message) { long_impl<s1::sha1_context>(); }
