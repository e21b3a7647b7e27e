// Independent references for mbo/digest: OpenSSL where it has the algorithm, otherwise a direct
// transcription of the specification that shares no structure with mbo's code (BLAKE3 as the
// recursive tree of its paper, BLAKE2b as RFC 7693's pseudo code over a whole buffer).
#ifndef VERIF_DIGEST_REF_H_
#define VERIF_DIGEST_REF_H_
#include <openssl/evp.h>

#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

inline std::string Evp(const char* name, std::string_view data, size_t xof = 0) {
  const EVP_MD* md = EVP_get_digestbyname(name);
  if (md == nullptr) {
    std::fprintf(stderr, "no reference for %s\n", name);
    std::abort();
  }
  EVP_MD_CTX* ctx = EVP_MD_CTX_new();
  EVP_DigestInit_ex(ctx, md, nullptr);
  EVP_DigestUpdate(ctx, data.data(), data.size());
  std::string out;
  if (xof) {
    out.resize(xof);
    EVP_DigestFinalXOF(ctx, reinterpret_cast<unsigned char*>(out.data()), xof);
  } else {
    unsigned n = 0;
    out.resize(EVP_MAX_MD_SIZE);
    EVP_DigestFinal_ex(ctx, reinterpret_cast<unsigned char*>(out.data()), &n);
    out.resize(n);
  }
  EVP_MD_CTX_free(ctx);
  return out;
}

// ---- BLAKE2b, RFC 7693 ----
inline std::string Blake2b(size_t outlen, std::string_view key, std::string_view data) {
  static const uint64_t iv[8] = {0x6A09E667F3BCC908ULL, 0xBB67AE8584CAA73BULL, 0x3C6EF372FE94F82BULL,
                                 0xA54FF53A5F1D36F1ULL, 0x510E527FADE682D1ULL, 0x9B05688C2B3E6C1FULL,
                                 0x1F83D9ABFB41BD6BULL, 0x5BE0CD19137E2179ULL};
  static const uint8_t S[10][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
                                    {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
                                    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
                                    {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
                                    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
                                    {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
                                    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
                                    {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
                                    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
                                    {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
  std::string buf;
  if (!key.empty()) {
    buf.assign(key);
    buf.resize(128, '\0');
  }
  buf.append(data);
  uint64_t h[8];
  for (int i = 0; i < 8; ++i) h[i] = iv[i];
  h[0] ^= 0x01010000ULL ^ (static_cast<uint64_t>(key.size()) << 8) ^ outlen;
  size_t blocks = buf.empty() ? 1 : (buf.size() + 127) / 128;
  const uint64_t total = buf.size();
  buf.resize(blocks * 128, '\0');
  for (size_t b = 0; b < blocks; ++b) {
    uint64_t m[16], v[16];
    std::memcpy(m, buf.data() + b * 128, 128);
    const bool last = b + 1 == blocks;
    const uint64_t t = last ? total : (b + 1) * 128;
    for (int i = 0; i < 8; ++i) v[i] = h[i], v[i + 8] = iv[i];
    v[12] ^= t;
    if (last) v[14] = ~v[14];
    auto g = [&](int a, int bb, int c, int d, uint64_t x, uint64_t y) {
      v[a] += v[bb] + x;
      v[d] = std::rotr(v[d] ^ v[a], 32);
      v[c] += v[d];
      v[bb] = std::rotr(v[bb] ^ v[c], 24);
      v[a] += v[bb] + y;
      v[d] = std::rotr(v[d] ^ v[a], 16);
      v[c] += v[d];
      v[bb] = std::rotr(v[bb] ^ v[c], 63);
    };
    for (int r = 0; r < 12; ++r) {
      const uint8_t* s = S[r % 10];
      g(0, 4, 8, 12, m[s[0]], m[s[1]]);
      g(1, 5, 9, 13, m[s[2]], m[s[3]]);
      g(2, 6, 10, 14, m[s[4]], m[s[5]]);
      g(3, 7, 11, 15, m[s[6]], m[s[7]]);
      g(0, 5, 10, 15, m[s[8]], m[s[9]]);
      g(1, 6, 11, 12, m[s[10]], m[s[11]]);
      g(2, 7, 8, 13, m[s[12]], m[s[13]]);
      g(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
  }
  return std::string(reinterpret_cast<const char*>(h), outlen);
}

// ---- BLAKE3, as the recursive tree definition ----
namespace b3 {
using Words = std::array<uint32_t, 8>;
inline const Words kIv = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
struct Node {  // an un-finalised compression
  Words cv;
  std::array<uint32_t, 16> m;
  uint64_t counter;
  uint32_t len, flags;
};
inline std::array<uint32_t, 16> Comp(const Node& n, uint64_t counter, uint32_t flags) {
  static const int P[16] = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
  uint32_t v[16];
  for (int i = 0; i < 8; ++i) v[i] = n.cv[i];
  for (int i = 0; i < 4; ++i) v[8 + i] = kIv[i];
  v[12] = static_cast<uint32_t>(counter);
  v[13] = static_cast<uint32_t>(counter >> 32);
  v[14] = n.len;
  v[15] = flags;
  auto m = n.m;
  auto g = [&](int a, int b, int c, int d, uint32_t x, uint32_t y) {
    v[a] += v[b] + x;
    v[d] = std::rotr(v[d] ^ v[a], 16);
    v[c] += v[d];
    v[b] = std::rotr(v[b] ^ v[c], 12);
    v[a] += v[b] + y;
    v[d] = std::rotr(v[d] ^ v[a], 8);
    v[c] += v[d];
    v[b] = std::rotr(v[b] ^ v[c], 7);
  };
  for (int r = 0; r < 7; ++r) {
    for (int i = 0; i < 4; ++i) g(i, 4 + i, 8 + i, 12 + i, m[2 * i], m[2 * i + 1]);
    for (int i = 0; i < 4; ++i) g(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, m[8 + 2 * i], m[9 + 2 * i]);
    auto o = m;
    for (int i = 0; i < 16; ++i) m[i] = o[P[i]];
  }
  std::array<uint32_t, 16> out;
  for (int i = 0; i < 8; ++i) out[i] = v[i] ^ v[i + 8], out[i + 8] = v[i + 8] ^ n.cv[i];
  return out;
}
inline Words Cv(const Node& n) {
  auto o = Comp(n, n.counter, n.flags);
  Words w;
  for (int i = 0; i < 8; ++i) w[i] = o[i];
  return w;
}
inline Node Chunk(std::string_view d, uint64_t idx, const Words& key, uint32_t flags) {
  Words cv = key;
  size_t nblocks = d.empty() ? 1 : (d.size() + 63) / 64;
  for (size_t b = 0;; ++b) {
    std::string blk(d.substr(b * 64, 64));
    Node n{cv, {}, idx, static_cast<uint32_t>(blk.size()), flags | (b == 0 ? 1u : 0u)};
    blk.resize(64, '\0');
    std::memcpy(n.m.data(), blk.data(), 64);
    if (b + 1 == nblocks) {
      n.flags |= 2;
      return n;
    }
    cv = Cv(n);
  }
}
inline Node Tree(std::string_view d, uint64_t idx, const Words& key, uint32_t flags) {
  if (d.size() <= 1024) return Chunk(d, idx, key, flags);
  size_t left = std::bit_floor((d.size() - 1) / 1024) * 1024;  // largest power of two chunks leaving something right
  Words l = Cv(Tree(d.substr(0, left), idx, key, flags));
  Words r = Cv(Tree(d.substr(left), idx + left / 1024, key, flags));
  Node n{key, {}, 0, 64, flags | 4};
  for (int i = 0; i < 8; ++i) n.m[i] = l[i], n.m[8 + i] = r[i];
  return n;
}
inline std::string Out(const Node& n, size_t len) {
  std::string out;
  for (uint64_t c = 0; out.size() < len; ++c) {
    auto o = Comp(n, c, n.flags | 8);
    out.append(reinterpret_cast<const char*>(o.data()), 64);
  }
  out.resize(len);
  return out;
}
inline std::string Hash(std::string_view d, size_t len) { return Out(Tree(d, 0, kIv, 0), len); }
inline std::string Keyed(std::string_view key32, std::string_view d, size_t len) {
  Words k;
  std::memcpy(k.data(), key32.data(), 32);
  return Out(Tree(d, 0, k, 16), len);
}
inline std::string Derive(std::string_view ctx, std::string_view material, size_t len) {
  std::string ck = Out(Tree(ctx, 0, kIv, 32), 32);
  Words k;
  std::memcpy(k.data(), ck.data(), 32);
  return Out(Tree(material, 0, k, 64), len);
}
}  // namespace b3

// name as in mbo's CLI; xof algorithms carry their size
inline std::string Digest(const std::string& name, size_t size, std::string_view data) {
  if (name == "blake3") return b3::Hash(data, size);
  if (name == "blake2b" || name == "blake2b-256") return Blake2b(size, "", data);
  if (name == "shake128" || name == "shake256") return Evp(name.c_str(), data, size);
  return Evp(name.c_str(), data);
}
inline std::string Hmac(const std::string& name, size_t size, size_t block, std::string_view key, std::string_view msg) {
  std::string k(key.size() > block ? Digest(name, size, key) : std::string(key));
  k.resize(block, '\0');
  std::string i = k, o = k;
  for (auto& c : i) c ^= 0x36;
  for (auto& c : o) c ^= 0x5c;
  return Digest(name, size, o + Digest(name, size, i + std::string(msg)));
}
}  // namespace ref

// X(reference name, size, expression type)
#define DIGEST_ALGOS(X)                                                     \
  X("md5", 16, 64, ::mbo::digest::md5::Algorithm)                           \
  X("sha1", 20, 64, ::mbo::digest::sha1::Algorithm)                         \
  X("sha224", 28, 64, ::mbo::digest::sha224::Algorithm)                     \
  X("sha256", 32, 64, ::mbo::digest::sha256::Algorithm)                     \
  X("sha384", 48, 128, ::mbo::digest::sha384::Algorithm)                    \
  X("sha512", 64, 128, ::mbo::digest::sha512::Algorithm)                    \
  X("sha512-224", 28, 128, ::mbo::digest::sha512_224::Algorithm)            \
  X("sha512-256", 32, 128, ::mbo::digest::sha512_256::Algorithm)            \
  X("sha3-224", 28, 144, ::mbo::digest::sha3_224::Algorithm)                \
  X("sha3-256", 32, 136, ::mbo::digest::sha3_256::Algorithm)                \
  X("sha3-384", 48, 104, ::mbo::digest::sha3_384::Algorithm)                \
  X("sha3-512", 64, 72, ::mbo::digest::sha3_512::Algorithm)                 \
  X("shake128", 32, 168, ::mbo::digest::shake128::Algorithm<32>)            \
  X("shake128", 500, 168, ::mbo::digest::shake128::Algorithm<500>)          \
  X("shake256", 64, 136, ::mbo::digest::shake256::Algorithm<64>)            \
  X("shake256", 137, 136, ::mbo::digest::shake256::Algorithm<137>)          \
  X("blake2b", 64, 128, ::mbo::digest::blake2b::Algorithm)                  \
  X("blake2b-256", 32, 128, ::mbo::digest::blake2b_256::Algorithm)          \
  X("blake3", 32, 64, ::mbo::digest::blake3::Algorithm)
#endif
