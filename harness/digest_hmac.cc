// HMAC over every digest: key length x message length x partition, against RFC 2104 over the references.
#include <memory>
#include "lib/mc.h"
#include "harness/digest_ref.h"
#include "mbo/digest/digest.h"

namespace {
std::string Make(int pattern, size_t n) {
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i)
    m[i] = pattern == 0   ? static_cast<char>((i * 0x9E3779B1u) >> 12)
           : pattern == 1 ? '\x36'
           : pattern == 2 ? '\x5c'
           : pattern == 3 ? '\0'
                          : static_cast<char>(0x80 + i % 128);
  return m;
}
template <typename D>
std::string Str(const D& d) {
  return std::string(reinterpret_cast<const char*>(d.data()), d.size());
}
struct Heap {
  std::vector<char> b;
  explicit Heap(std::string_view v) : b(v.begin(), v.end()) { b.shrink_to_fit(); }
  std::string_view view() const { return {b.data(), b.size()}; }
};

template <typename A>
void One(mc::Ctx& c, const char* name, size_t size, size_t block, const std::string& key, const std::string& msg,
         const std::string& what) {
  c.heartbeat();
  c.step();
  c.detail(mc::Cat(name, " ", what));
  const std::string want = ref::Hmac(name, size, block, key, msg);
  using H = mbo::digest::Hmac<A>;
  {
    Heap k(key), m(msg);
    MC_CHECK(c, Str(H::Digest(k.view(), m.view())) == want, "Hmac<", name, "/", size, "> ", what);
  }
  // streaming: the key may go away after construction; every two-way split at a few places
  for (size_t cut : {size_t(0), size_t(1), msg.size() / 2, msg.size()}) {
    if (cut > msg.size()) continue;
    std::unique_ptr<Heap> k(new Heap(key));
    mbo::digest::HmacStreamer<A> s(k->view());
    k.reset();
    s.Update(std::string_view(msg).substr(0, cut));
    MC_CHECK(c, Str(s.Finalize()) == ref::Hmac(name, size, block, key, msg.substr(0, cut)), name, " peek at ", cut, " ", what);
    auto copy = s;
    copy.Update("something else entirely");
    s.Update(std::string_view(msg).substr(cut));
    MC_CHECK(c, Str(s.Finalize()) == want, name, " streamed, cut ", cut, " ", what);
    MC_CHECK(c, Str(s.Finalize()) == want, name, " streamed and finalised twice, cut ", cut, " ", what);
  }
  c.state(mc::Fnv(want));
}

template <typename A>
void Run(mc::Ctx& c, const char* name, size_t size, size_t block) {
  const int mode = c.choose(2);
  if (mode == 0) {  // every key length, around and beyond the block
    const size_t top = mc::Tier<size_t>(block + 20, 3 * block);
    for (size_t k = c.choose(4); k <= top; k += 4)
      for (size_t m : mc::Thorough() ? std::vector<size_t>{0, 1, block, 2 * block + 7} : std::vector<size_t>{3, block}) {
        One<A>(c, name, size, block, Make(0, k), Make(4, m), mc::Cat("key ", k, " bytes, message ", m, " bytes"));
      }
    c.sample(mc::Cat("HMAC-", name, " every key length up to ", top));
  } else {
    const int kp = 1 + c.choose(4);
    for (size_t k : {size_t(0), size_t(1), size, block - 1, block, block + 1, 2 * block + 1})
      for (size_t m : {size_t(0), size_t(1), block - 1, block, block + 1, 2 * block})
        One<A>(c, name, size, block, Make(kp, k), Make(0, m), mc::Cat("key pattern ", kp, " ", k, " bytes, message ", m));
  }
}
#define X(n, s, b, A) {n, s, b, &Run<A>},
struct Entry {
  const char* name;
  size_t size, block;
  void (*run)(mc::Ctx&, const char*, size_t, size_t);
};
#define DIGEST_SMALL(X) DIGEST_ALGOS(X)
#undef X
template <typename A>
constexpr bool kFits = A::kDigestSize <= A::kBlockSize;
template <typename A>
void RunIf(mc::Ctx& c, const char* n, size_t s, size_t b) {
  if constexpr (kFits<A>) Run<A>(c, n, s, b);
}
#define X(n, s, b, A) {n, s, b, &RunIf<A>},
const Entry kAlgos[] = {DIGEST_ALGOS(X)};
}  // namespace

MC_SECTION_D(keys_and_messages, 3) {
  const Entry& e = kAlgos[c.choose(std::size(kAlgos))];
  e.run(c, e.name, e.size, e.block);
}
