// ParseChecksumLine against the one-line grammar  HEX{n} ' ' (' '|'*') NAME+
#include "lib/mc.h"
#include "mbo/digest/checksum.h"

namespace {
bool RefParse(const std::string& line, size_t n, std::string& hex, std::string& name) {
  size_t i = 0;
  while (i < line.size() && i < n) {
    const unsigned char ch = line[i];
    const bool is_hex = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F');
    if (!is_hex) return false;
    ++i;
  }
  if (i != n) return false;
  if (i == line.size() || line[i] != ' ') return false;
  ++i;
  if (i == line.size() || (line[i] != ' ' && line[i] != '*')) return false;
  ++i;
  if (i == line.size()) return false;
  hex = line.substr(0, n);
  name = line.substr(i);
  return true;
}
void Check(mc::Ctx& c, const std::string& line, size_t n) {
  std::vector<char> buf(line.begin(), line.end());
  buf.shrink_to_fit();
  const std::string_view view(buf.data(), buf.size());
  std::string hex, name;
  const bool want = RefParse(line, n, hex, name);
  c.step();
  const auto got = mbo::digest::internal::ParseChecksumLine(view, n);
  MC_CHECK(c, got.has_value() == want, "line ", mc::Quote(line), " hex_length ", n, " accepted=", got.has_value());
  if (want) {
    MC_CHECK(c, got->hex == hex && got->file_name == name, "line ", mc::Quote(line), " parsed as ", mc::Quote(got->hex), ", ",
             mc::Quote(got->file_name));
    MC_CHECK(c, got->hex.data() == view.data() && got->file_name.data() + got->file_name.size() == view.data() + view.size(),
             "the parts are views into the line: ", mc::Quote(line));
    c.state(mc::Fnv(line, n));
  }
}
}  // namespace

// every line up to the bound over an alphabet that holds each side of every character class border
MC_SECTION(all_short_lines) {
  static const char kAlpha[] = {' ', '*', '0', '9', 'a', 'f', 'A', 'F', 'g', 'G', '/', ':', '@', '`', '\0', '\n', '\t', '\x80', '\xe1', '\\'};
  const int k = sizeof(kAlpha);
  const size_t len = c.choose(mc::Tier(6, 7));
  const int first = c.choose(k);
  if (len == 0) {
    if (first == 0) for (size_t n = 0; n < 5; ++n) Check(c, "", n);
    return;
  }
  std::string line(len, ' ');
  std::vector<int> idx(len, 0);
  idx[0] = first;
  while (true) {
    for (size_t i = 0; i < len; ++i) line[i] = kAlpha[idx[i]];
    for (size_t n = 0; n <= (len < 5 ? 4 : 3); ++n) Check(c, line, n);
    int i = static_cast<int>(len) - 1;
    while (i > 0 && ++idx[i] == k) idx[i--] = 0;
    if (i == 0) break;
    if ((idx[len - 1] & 15) == 0) c.heartbeat();
  }
  c.sample(mc::Cat("all lines of length ", len, " starting with ", mc::Quote(std::string(1, kAlpha[first]))));
}

// every single-byte substitution, deletion and insertion in valid lines of each real digest length
MC_SECTION(mutated_lines) {
  static const size_t kHex[] = {32, 40, 56, 64, 96, 128};
  const size_t n = kHex[c.choose(6)];
  static const char* kNames[] = {"a", "file name.txt", "*star", " lead", "x  y", "-", "trail ", "\\back"};
  const std::string name = kNames[c.choose(8)];
  for (char marker : {' ', '*'}) {
    std::string line;
    for (size_t i = 0; i < n; ++i) line += "0123456789abcdefABCDEF"[i % 22];
    line += ' ';
    line += marker;
    line += name;
    Check(c, line, n);
    for (size_t h = 0; h <= line.size() + 3; ++h) Check(c, line, h);
    for (size_t h : {size_t(-1), size_t(-2), size_t(-3), size_t(1) << 63}) Check(c, line, h);
    for (size_t i = 0; i < line.size(); ++i) {
      for (int b = 0; b < 256; ++b) {
        std::string m = line;
        m[i] = static_cast<char>(b);
        Check(c, m, n);
      }
      Check(c, line.substr(0, i), n);
      Check(c, line.substr(0, i) + line.substr(i + 1), n);
      for (char ins : {' ', '*', '0', 'g', '\t'}) Check(c, line.substr(0, i) + ins + line.substr(i), n);
    }
    c.heartbeat();
  }
}
