// hash.bzl (executed) against the C++ algorithms, for every length and a set of seeds.
#include "lib/mc.h"
#include "harness/hash_algs.h"
namespace {
namespace mh = mbo::hash;
struct Row {
  std::string algo, kind, value, seed;
  size_t n;
};
const std::vector<Row>& Rows() {
  static const std::vector<Row> rows = [] {
    std::vector<Row> v;
    std::ifstream f(std::getenv("MC_DATA") ? std::getenv("MC_DATA") : "");
    std::string a, k, n, s, val;
    while (f >> a >> k >> n >> s >> val) v.push_back({a, k, val, s, n == "-" ? 0 : std::stoul(n)});
    return v;
  }();
  return rows;
}
}  // namespace
MC_SECTION_D(rows, 1) {
  const int stripe = c.choose(64);
  const auto& rows = Rows();
  MC_CHECK(c, rows.size() > 1000, "the Starlark side produced ", rows.size(), " values");
  for (size_t i = stripe; i < rows.size(); i += 64) {
    const Row& r = rows[i];
    std::string d;
    if (r.kind == "m") d = ha::Message(r.n);
    else if (r.kind == "z") d.assign(r.n, '\0');
    else if (r.kind == "f") d.assign(r.n, '\xff');
    else
      for (size_t k = 0; k < r.n; ++k) d += static_cast<char>(32 + (k * 7) % 95);
    const bool def = r.seed == "-";
    const uint64_t seed = def ? 0 : std::stoull(r.seed);
    uint64_t want = 0;
    if (r.algo == "dumbo") want = def ? mh::dumbo::GetHash64(d) : mh::dumbo::GetHash64(d, seed);
    else if (r.algo == "mumbo") want = def ? mh::mumbo::GetHash64(d) : mh::mumbo::GetHash64(d, seed);
    else want = def ? mh::fnv1a::GetHash64(d) : mh::fnv1a::GetHash64(d, seed);
    c.step();
    c.state(want);
    MC_CHECK(c, r.value == std::to_string(want), r.algo, " of ", r.n, " bytes (", r.kind, ") seed ", r.seed, ": hash.bzl ", r.value, " C++ ", want);
  }
}
