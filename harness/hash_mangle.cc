// The build-selected constant: what the generator rule produces for every configuration of a grid.
#include "lib/mc.h"
#include "mbo/hash/hash_mangle.h"
#include <map>
namespace {
namespace mh = mbo::hash;
struct Row {
  std::string version, seed, buckets, constant, header;
};
const std::vector<Row>& Rows() {
  static const std::vector<Row> rows = [] {
    std::vector<Row> v;
    std::ifstream f(std::getenv("MC_DATA") ? std::getenv("MC_DATA") : "");
    for (std::string l; std::getline(f, l);) {
      std::stringstream s(l);
      Row r;
      std::getline(s, r.version, '|'), std::getline(s, r.seed, '|'), std::getline(s, r.buckets, '|'), std::getline(s, r.constant, '|'), std::getline(s, r.header, '|');
      v.push_back(r);
    }
    return v;
  }();
  return rows;
}
constexpr uint64_t kBase = 0x45828334C99AF44FULL, kSpread = 0x9E3779B97F4A7C15ULL;
}  // namespace
MC_SECTION_D(every_configuration, 1) {
  const auto& rows = Rows();
  MC_CHECK(c, rows.size() > 100, "rows ", rows.size());
  for (size_t i = c.choose(16); i < rows.size(); i += 16) {
    const Row& r = rows[i];
    const std::string where = mc::Cat("version ", mc::Quote(r.version), " seed ", mc::Quote(r.seed), " buckets ", r.buckets, " gives ", r.constant);
    c.step();
    const long b = std::stol(r.buckets);
    if (b < 0) {
      MC_CHECK(c, r.constant == "error", where, ": an invalid setting must be refused");
      continue;
    }
    MC_CHECK(c, r.constant == r.header, where, " but the header says ", r.header);
    MC_CHECK(c, r.constant.find_first_not_of("0123456789") == std::string::npos, where);
    const uint64_t k = std::stoull(r.constant);
    c.state(k);
    if (b == 0) {
      MC_CHECK(c, k == 0, where);
    } else {
      MC_CHECK(c, k != 0, where);
      const uint64_t bucket = mh::dumbo::GetHash64(r.version + "|" + r.seed) % b;
      MC_CHECK(c, k == (kBase ^ (bucket * kSpread)), where, " wanted bucket ", bucket);
      if (b == 1) MC_CHECK(c, k == kBase, where);
    }
  }
}
MC_SECTION_D(bounded_variation, 0) {
  std::map<long, std::set<std::string>> by;
  for (const Row& r : Rows())
    if (r.constant != "error") by[std::stol(r.buckets)].insert(r.constant);
  for (auto& [b, s] : by) {
    c.step();
    MC_CHECK(c, b < 0 || s.size() <= static_cast<size_t>(b ? b : 1), b, " buckets give ", s.size(), " constants");
    if (b >= 2 && b <= 4) MC_CHECK(c, s.size() == static_cast<size_t>(b), b, " buckets: only ", s.size(), " constants over the whole grid");
    if (b >= 1000) MC_CHECK(c, s.size() >= 15, b, " buckets: version or seed do not rotate the constant");
  }
}
MC_SECTION_D(mask, 1) {
  static const uint64_t kW[] = {0, 1, 0x80000000ULL, 0x9E3779B97F4A7C15ULL, ~0ULL};
  const uint64_t w = c.pick(kW);
  MC_CHECK(c, mh::HashMangle(w) == (w ^ mh::kMangleConstant), w);
  for (int n = 0; n < 150; ++n) {
    const std::string m(n, 'q');
    MC_CHECK(c, (mh::GetHash(m) ^ mh::kMangleConstant) == mh::GetHash64(m), n);
    MC_CHECK(c, (mh::MangledHasher<mh::murmur3::Algorithm>::GetHash(m, w) ^ mh::kMangleConstant) == mh::murmur3::GetHash64(m, w), n);
    MC_CHECK(c, (mh::GetHash<mh::dumbo::Algorithm>(m) ^ mh::kMangleConstant) == mh::dumbo::GetHash64(m, 5381), n);
    MC_CHECK(c, (mh::DefaultMangledHasher{}(m) == mh::GetHash(m)), n);
  }
}
