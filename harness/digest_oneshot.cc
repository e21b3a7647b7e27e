#include "lib/mc.h"
#include "harness/digest_ref.h"
#include "mbo/digest/digest.h"

namespace {
struct Algo {
  const char* name;
  size_t size, block;
  std::string (*digest)(std::string_view);
  std::string (*hex)(std::string_view);
};
template <typename A>
std::string Dig(std::string_view d) {
  auto r = A::Digest(d);
  return std::string(reinterpret_cast<const char*>(r.data()), r.size());
}
template <typename A>
std::string HexOf(std::string_view d) {
  return mbo::digest::ToHexString(A::Digest(d));
}
template <auto F>
std::string Free(std::string_view d) {
  auto r = F(d);
  return std::string(reinterpret_cast<const char*>(r.data()), r.size());
}
template <auto F>
std::string FreeHex(std::string_view d) {
  return mbo::digest::ToHexString(F(d));
}
#define X(n, s, b, A) {n, s, b, &Dig<A>, &HexOf<A>},
#define F(n, s, b, fn) {n, s, b, &Free<&fn>, &FreeHex<&fn>},
const Algo kAlgos[] = {
    DIGEST_ALGOS(X)
    // the free functions of each namespace
    F("md5", 16, 64, mbo::digest::md5::Digest) F("sha1", 20, 64, mbo::digest::sha1::Digest)
    F("sha224", 28, 64, mbo::digest::sha224::Digest) F("sha256", 32, 64, mbo::digest::sha256::Digest)
    F("sha384", 48, 128, mbo::digest::sha384::Digest) F("sha512", 64, 128, mbo::digest::sha512::Digest)
    F("sha512-224", 28, 128, mbo::digest::sha512_224::Digest) F("sha512-256", 32, 128, mbo::digest::sha512_256::Digest)
    F("sha3-224", 28, 144, mbo::digest::sha3_224::Digest) F("sha3-256", 32, 136, mbo::digest::sha3_256::Digest)
    F("sha3-384", 48, 104, mbo::digest::sha3_384::Digest) F("sha3-512", 64, 72, mbo::digest::sha3_512::Digest)
    F("shake128", 16, 168, mbo::digest::shake128::Digest<16>) F("shake256", 32, 136, mbo::digest::shake256::Digest<32>)
    F("blake2b", 64, 128, mbo::digest::blake2b::Digest) F("blake2b-256", 32, 128, mbo::digest::blake2b_256::Digest)
    F("blake3", 32, 64, mbo::digest::blake3::Digest)};
constexpr int kStructAlgos = 19;

// Message alphabet: byte i of pattern p.
char Byte(int pattern, size_t i) {
  switch (pattern) {
    case 0: return static_cast<char>(i % 251);
    case 1: return static_cast<char>(0xff);
    case 2: return static_cast<char>(0);
    case 3: return static_cast<char>(0x80 | (i * 7));
    default: return static_cast<char>((i * 0x9E3779B1u) >> 13);
  }
}

void Compare(mc::Ctx& c, const Algo& a, std::string_view msg, const std::string& what) {
  // exact-size heap copy: any read past the message is an ASAN error
  std::vector<char> buf(msg.begin(), msg.end());
  buf.shrink_to_fit();
  std::string_view view(buf.data(), buf.size());
  c.detail(what);
  const std::string want = ref::Digest(a.name, a.size, msg);
  const std::string got = a.digest(view);
  c.step();
  MC_CHECK(c, got == want, a.name, "/", a.size, " ", what, " got ", mc::Hex(got.data(), got.size()), " want ",
           mc::Hex(want.data(), want.size()));
  MC_CHECK(c, a.hex(view) == mc::Hex(want.data(), want.size()), a.name, " hex ", what);
  c.state(mc::Fnv(got, mc::Fnv(a.name)));
  c.heartbeat();
}
}  // namespace

// Every length 0..N over the pattern alphabet.
MC_SECTION(lengths) {
  const Algo& a = kAlgos[c.choose(std::size(kAlgos))];
  const int seg = c.choose(8);
  const bool b3 = std::string(a.name) == "blake3";
  const size_t max = b3 ? mc::Tier<size_t>(9300, 20600) : mc::Tier<size_t>(8 * a.block + 9, 40 * a.block);
  const size_t stride = b3 && !mc::Thorough() ? 1 : 1;
  for (size_t n = seg; n <= max; n += 8 * stride) {
    // Beyond two chunks the quick tier keeps the lengths around block and chunk boundaries.
    if (b3 && !mc::Thorough() && n > 2200 && (n % 64) > 1 && (n % 64) != 63) continue;
    for (int p = 0; p < mc::Tier(n < 2 * a.block + 2 ? 5 : 2, 5); ++p) {
      std::string m(n, '\0');
      for (size_t i = 0; i < n; ++i) m[i] = Byte(p == 1 && n > 400 ? 4 : p, i);
      Compare(c, a, m, mc::Cat("len=", n, " pattern=", p));
    }
  }
  c.sample(mc::Cat(a.name, " every length == ", seg, " mod 8 up to ", max, ", 5 byte patterns"));
}

// Every message of one byte, every two-byte message over a boundary alphabet, and every single-byte
// deviation of a two-block message: no input byte may be ignored or read as signed.
MC_SECTION(contents) {
  const Algo& a = kAlgos[c.choose(mc::Tier<int>(kStructAlgos, std::size(kAlgos)))];
  const int part = c.choose(4);
  if (part == 0) {
    for (int b = 0; b < 256; ++b) Compare(c, a, std::string(1, static_cast<char>(b)), mc::Cat("one byte ", b));
    static const unsigned char kB[] = {0, 1, 0x0a, 0x36, 0x5c, 0x7f, 0x80, 0x81, 0xfe, 0xff};
    for (unsigned char x : kB)
      for (unsigned char y : kB) {
        std::string m{static_cast<char>(x), static_cast<char>(y)};
        Compare(c, a, m, "two bytes " + mc::Hex(m.data(), 2));
      }
    // padding-lookalike endings
    for (size_t n : {a.block - 1, a.block, a.block + 1})
      for (unsigned char e : {0x80, 0x06, 0x1f, 0x86, 0x00, 0x01}) {
        std::string m(n, '\0');
        m[n - 1] = static_cast<char>(e);
        Compare(c, a, m, mc::Cat("zeros ending in ", int(e), " len ", n));
      }
    return;
  }
  const size_t n = part == 1 ? a.block - 1 : part == 2 ? a.block : 2 * a.block + 3;
  for (size_t i = 0; i < n; ++i)
    for (int bit = 0; bit < 8; ++bit) {
      if (!mc::Thorough() && bit != static_cast<int>(i % 8) && bit != 7) continue;
      std::string m(n, '\0');
      m[i] = static_cast<char>(1 << bit);
      Compare(c, a, m, mc::Cat("len ", n, " only bit ", bit, " of byte ", i));
    }
}

// Alignment of the message in memory never matters.
MC_SECTION(alignment) {
  const Algo& a = kAlgos[c.choose(kStructAlgos)];
  const int off = c.choose(9);
  for (size_t n : {size_t(0), size_t(1), size_t(7), size_t(8), size_t(9), a.block - 1, a.block, a.block + 1, 2 * a.block + 5}) {
    std::string store(off + n, 'x');
    for (size_t i = 0; i < n; ++i) store[off + i] = Byte(4, i);
    const std::string_view v = std::string_view(store).substr(off);
    c.step();
    MC_CHECK(c, a.digest(v) == ref::Digest(a.name, a.size, v), a.name, " offset ", off, " len ", n);
  }
  // the empty view without storage
  MC_CHECK(c, a.digest(std::string_view()) == ref::Digest(a.name, a.size, ""), a.name, " null view");
}
