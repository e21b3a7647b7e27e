// Messages whose bit or byte count does not fit 32 bits: counters must be wide enough.
#include "lib/mc.h"
#include "harness/digest_ref.h"
#include "mbo/digest/digest.h"

namespace {
template <typename A>
std::string Stream(std::string_view chunk, size_t times, std::string_view tail, mc::Ctx& c) {
  mbo::digest::Streamer<A> s;
  for (size_t i = 0; i < times; ++i) {
    s.Update(chunk);
    c.heartbeat();
    c.step();
  }
  s.Update(tail);
  auto r = s.Finalize();
  return std::string(reinterpret_cast<const char*>(r.data()), r.size());
}
std::string RefStream(const char* name, size_t size, std::string_view chunk, size_t times, std::string_view tail, mc::Ctx& c) {
  EVP_MD_CTX* ctx = EVP_MD_CTX_new();
  EVP_DigestInit_ex(ctx, EVP_get_digestbyname(name), nullptr);
  for (size_t i = 0; i < times; ++i) {
    EVP_DigestUpdate(ctx, chunk.data(), chunk.size());
    c.heartbeat();
  }
  EVP_DigestUpdate(ctx, tail.data(), tail.size());
  std::string out(64, '\0');
  unsigned n = 0;
  EVP_DigestFinal_ex(ctx, reinterpret_cast<unsigned char*>(out.data()), &n);
  out.resize(n);
  EVP_MD_CTX_free(ctx);
  return out;
}
struct Algo {
  const char* name;
  size_t size;
  std::string (*f)(std::string_view, size_t, std::string_view, mc::Ctx&);
};
#define X(n, s, A) {n, s, &Stream<mbo::digest::A::Algorithm>},
const Algo kAlgos[] = {X("md5", 16, md5) X("sha1", 20, sha1) X("sha256", 32, sha256) X("sha512", 64, sha512)
                           X("sha224", 28, sha224) X("sha384", 48, sha384) X("blake2b512", 64, blake2b)};
}  // namespace

// 2^29 bytes is 2^32 bits; 2^32 bytes is the first byte count beyond 32 bits.
MC_SECTION_D(counters, 2) {
  const int which = c.choose(2);
  const Algo& a = kAlgos[c.choose(std::size(kAlgos))];
  // SHA-512's and BLAKE2b's first word is 64 bit wide in bytes; they only need the byte-count boundary.
  const size_t total_mb = which == 0 ? 4096 : 512;
  std::string chunk(1 << 20, '\0');
  for (size_t i = 0; i < chunk.size(); ++i) chunk[i] = static_cast<char>((i * 2654435761u) >> 11);
  for (std::string_view tail : {std::string_view("tail of the message")}) {
    c.detail(mc::Cat(a.name, " ", total_mb, " MiB + ", tail.size()));
    const std::string got = a.f(chunk, total_mb, tail, c);
    const std::string want = RefStream(a.name, a.size, chunk, total_mb, tail, c);
    MC_CHECK(c, got == want, a.name, " of ", total_mb, " MiB + ", tail.size(), " bytes: got ", mc::Hex(got.data(), got.size()),
             " want ", mc::Hex(want.data(), want.size()));
    c.state(mc::Fnv(got));
  }
  c.sample(mc::Cat(a.name, " ", total_mb, " MiB + tail"));
}

// BLAKE3's chaining stack grows with the logarithm of the chunk count: one- and all-ones chunk counts up to 2^k.
MC_SECTION_D(blake3_tree, 2) {
  const int k = c.choose(mc::Tier(16, 20));
  const int d = c.choose(3);
  const size_t n = (size_t(1024) << k) + (d == 0 ? 0 : d == 1 ? 1 : 1024 * ((size_t(1) << k) - 1));
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i) m[i] = static_cast<char>((i * 2654435761u) >> 13);
  c.detail(mc::Cat("blake3 of ", n, " bytes"));
  auto r = mbo::digest::blake3::Digest(m);
  c.step();
  const std::string got(reinterpret_cast<const char*>(r.data()), r.size());
  const std::string want = ref::b3::Hash(m, 32);
  MC_CHECK(c, got == want, "blake3 of ", n, " bytes: got ", mc::Hex(got.data(), 32), " want ", mc::Hex(want.data(), 32));
  c.state(mc::Fnv(got));
  c.sample(mc::Cat("blake3 of ", n, " bytes"));
}
