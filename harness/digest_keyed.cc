// BLAKE3 XOF / keyed / derive-key, BLAKE2b keyed, SHAKE output lengths.
#include "lib/mc.h"
#include "harness/digest_ref.h"
#include "mbo/digest/digest.h"

namespace {
namespace md = mbo::digest;
std::string Make(uint32_t salt, size_t n) {
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i) m[i] = static_cast<char>(((i + salt) * 0x9E3779B1u) >> 12);
  return m;
}
template <typename D>
std::string Str(const D& d) {
  return std::string(reinterpret_cast<const char*>(d.data()), d.size());
}
struct Heap {
  std::vector<char> b;
  explicit Heap(std::string_view v) : b(v.begin(), v.end()) { b.shrink_to_fit(); }
  std::string_view view() const { return {b.data(), b.size()}; }
};
const size_t kLens[] = {0, 1, 31, 63, 64, 65, 127, 128, 129, 168, 1023, 1024, 1025, 2048, 2049, 3073, 5121};

template <size_t N>
void XofOne(mc::Ctx& c) {
  for (size_t n : kLens) {
    c.step();
    c.heartbeat();
    c.detail(mc::Cat("output ", N, " message ", n));
    const Heap m(Make(1, n)), key(Make(7, 32));
    const std::string msg(m.view());
    MC_CHECK(c, Str(md::blake3::DigestXof<N>(m.view())) == ref::b3::Hash(msg, N), "blake3 XOF ", N, " of ", n, " bytes");
    MC_CHECK(c, Str(md::blake3::DigestKeyed<N>(key.view(), m.view())) == ref::b3::Keyed(key.view(), msg, N), "blake3 keyed ",
             N, " of ", n);
    MC_CHECK(c, Str(md::blake3::DeriveKey<N>("mbo verification 2025 context", m.view())) ==
                    ref::b3::Derive("mbo verification 2025 context", msg, N),
             "blake3 derive ", N, " of ", n);
    MC_CHECK(c, Str(md::shake128::Digest<N>(m.view())) == ref::Evp("shake128", msg, N), "shake128 ", N, " of ", n);
    MC_CHECK(c, Str(md::shake256::Digest<N>(m.view())) == ref::Evp("shake256", msg, N), "shake256 ", N, " of ", n);
    MC_CHECK(c, Str(md::shake128::Algorithm<N>::Digest(m.view())) == ref::Evp("shake128", msg, N), "shake128 algo ", N);
    MC_CHECK(c, Str(md::shake256::Algorithm<N>::Digest(m.view())) == ref::Evp("shake256", msg, N), "shake256 algo ", N);
    // shorter outputs are prefixes of longer ones
    const std::string longer = Str(md::blake3::DigestXof<512>(m.view()));
    MC_CHECK(c, longer.substr(0, N) == Str(md::blake3::DigestXof<N>(m.view())), "blake3 prefix ", N);
    c.state(mc::Fnv(longer.substr(0, N)));
  }
}
template <size_t... I>
void XofAll(mc::Ctx& c, int which, std::index_sequence<I...>) {
  static constexpr size_t kOut[] = {1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 135, 136, 137, 167, 168, 169, 191, 192, 256, 336, 337, 400, 512};
  void (*fns[])(mc::Ctx&) = {&XofOne<kOut[I]>...};
  fns[which](c);
}

template <typename A>
void B2(mc::Ctx& c, size_t size, size_t klen) {
  for (size_t n : {0, 1, 63, 64, 127, 128, 129, 255, 256, 257, 400}) {
    c.step();
    c.heartbeat();
    c.detail(mc::Cat("blake2b/", size, " key ", klen, " message ", n));
    const Heap key(Make(3, klen)), m(Make(4, n));
    const std::string want = ref::Blake2b(size, key.view().substr(0, 64), m.view());
    MC_CHECK(c, Str(A::DigestKeyed(key.view(), m.view())) == want, "blake2b/", size, " keyed ", klen, " of ", n);
    for (size_t cut : {size_t(0), size_t(1), n / 2, n}) {
      if (cut > n) continue;
      auto s = A::StreamInitKeyed(key.view());
      MC_CHECK(c, Str(A::StreamFinalize(s)) == ref::Blake2b(size, key.view().substr(0, 64), ""), "keyed empty peek");
      A::StreamUpdate(s, m.view().substr(0, cut));
      MC_CHECK(c, Str(A::StreamFinalize(s)) == ref::Blake2b(size, key.view().substr(0, 64), m.view().substr(0, cut)), "keyed peek");
      A::StreamUpdate(s, m.view().substr(cut));
      MC_CHECK(c, Str(A::StreamFinalize(s)) == want, "blake2b/", size, " keyed ", klen, " of ", n, " cut ", cut);
    }
    c.state(mc::Fnv(want));
  }
}
}  // namespace

MC_SECTION(xof_lengths) {
  XofAll(c, c.choose(24), std::make_index_sequence<24>());
  c.sample("every output length of the alphabet x every message length of the alphabet, five XOF/keyed/derive functions");
}

MC_SECTION(blake2b_keyed) {
  const int algo = c.choose(2);
  const size_t klen = c.choose(70);  // 0..69; bytes beyond 64 are documented to be ignored
  if (algo == 0) {
    B2<md::blake2b::Algorithm>(c, 64, klen);
  } else {
    B2<md::blake2b_256::Algorithm>(c, 32, klen);
  }
}

MC_SECTION(blake3_keyed) {
  const size_t klen = c.choose(40);  // documented: shorter keys are zero padded, excess is ignored
  for (size_t n : kLens) {
    c.step();
    c.heartbeat();
    const Heap key(Make(9, klen)), m(Make(2, n));
    std::string k32(key.view().substr(0, 32));
    k32.resize(32, '\0');
    const std::string want = ref::b3::Keyed(k32, m.view(), 32);
    MC_CHECK(c, Str(md::blake3::DigestKeyed(key.view(), m.view())) == want, "blake3 keyed, key ", klen, " message ", n);
    auto s = md::blake3::Algorithm::StreamInitKeyed(key.view());
    const size_t cut = n / 3;
    md::blake3::Algorithm::StreamUpdate(s, m.view().substr(0, cut));
    MC_CHECK(c, Str(md::blake3::Algorithm::StreamFinalize(s)) == ref::b3::Keyed(k32, m.view().substr(0, cut), 32), "keyed peek");
    md::blake3::Algorithm::StreamUpdate(s, m.view().substr(cut));
    MC_CHECK(c, Str(md::blake3::Algorithm::StreamFinalize(s)) == want, "blake3 keyed stream, key ", klen, " message ", n);
    c.state(mc::Fnv(want));
  }
}

MC_SECTION(blake3_derive) {
  const size_t ctx = kLens[c.choose(std::size(kLens))];
  const size_t n = kLens[c.choose(std::size(kLens))];
  const Heap context(Make(11, ctx)), m(Make(12, n));
  c.step();
  const std::string want = ref::b3::Derive(context.view(), m.view(), 32);
  MC_CHECK(c, Str(md::blake3::DeriveKey(context.view(), m.view())) == want, "derive context ", ctx, " material ", n);
  c.state(mc::Fnv(want));
}
