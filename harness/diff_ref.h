// Reference for diffs: scripts, their validity and how each format shows them.
#pragma once
#include <algorithm>
#include <charconv>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "lib/mc.h"
#include "mbo/diff/diff.h"

namespace dr {
using Opt = mbo::diff::DiffOptions;
inline constexpr std::string_view kMarker = "\\ No newline at end of file";
struct Line {
  std::string text;
  bool nl = true;
  bool operator==(const Line&) const = default;
};
struct Entry {
  char kind;
  Line line;
};
using Script = std::vector<Entry>;

inline std::vector<Line> Split(std::string_view t) {
  std::vector<Line> r;
  while (!t.empty()) {
    const size_t e = t.find('\n');
    if (e == std::string_view::npos) {
      r.push_back({std::string(t), false});
      break;
    }
    r.push_back({std::string(t.substr(0, e)), true});
    t.remove_prefix(e + 1);
  }
  return r;
}
inline std::string Join(const std::vector<Line>& l) {
  std::string r;
  for (auto& x : l) r += x.text + (x.nl ? "\n" : "");
  return r;
}

struct Hunk {
  size_t l = 0, ln = 0, r = 0, rn = 0;
  Script e;
};
inline size_t Num(std::string_view& s, bool& ok) {
  size_t v = 0, n = 0;
  while (n < s.size() && s[n] >= '0' && s[n] <= '9') v = v * 10 + (s[n++] - '0');
  ok &= n > 0;
  s.remove_prefix(n);
  return v;
}
inline void Pos(std::string_view& s, size_t& at, size_t& num, bool& ok) {
  at = Num(s, ok), num = 1;
  if (s.starts_with(',')) s.remove_prefix(1), num = Num(s, ok);
  if (num > 0) ok &= at > 0, --at;  // Else it is the line before.
}
// Parses unified output without file header. The counts and positions have to fit.
inline std::optional<std::vector<Hunk>> ParseUnified(std::string_view s, std::string& why) {
  std::vector<Hunk> r;
  long shift = 0;
  size_t end = 0;
  while (!s.empty()) {
    bool ok = s.starts_with("@@ -");
    if (!ok) return why = "no chunk header", std::nullopt;
    s.remove_prefix(4);
    Hunk h;
    Pos(s, h.l, h.ln, ok);
    ok &= s.starts_with(" +");
    if (!ok) return why = "bad chunk header", std::nullopt;
    s.remove_prefix(2);
    Pos(s, h.r, h.rn, ok);
    if (!ok || !s.starts_with(" @@\n")) return why = "bad chunk header", std::nullopt;
    s.remove_prefix(4);
    size_t ln = 0, rn = 0;
    while (!s.empty() && !s.starts_with("@@ ")) {
      const size_t e = s.find('\n');
      if (e == std::string_view::npos) return why = "unterminated line", std::nullopt;
      const std::string_view line = s.substr(0, e);
      s.remove_prefix(e + 1);
      if (line == kMarker) {
        if (h.e.empty() || !h.e.back().line.nl) return why = "marker without line", std::nullopt;
        h.e.back().line.nl = false;
        continue;
      }
      if (line.empty() || std::string_view(" +-").find(line[0]) == std::string_view::npos) return why = "bad line kind", std::nullopt;
      h.e.push_back({line[0], {std::string(line.substr(1)), true}});
      ln += line[0] != '+', rn += line[0] != '-';
    }
    if (ln != h.ln || rn != h.rn) return why = "the chunk header has wrong counts", std::nullopt;
    if (h.l < end || (!r.empty() && h.l == end && false)) return why = "overlapping chunks", std::nullopt;
    if (static_cast<long>(h.r) != static_cast<long>(h.l) + shift) return why = "the chunk header has wrong positions", std::nullopt;
    end = h.l + h.ln;
    shift += static_cast<long>(h.rn) - static_cast<long>(h.ln);
    r.push_back(std::move(h));
  }
  return r;
}

// How many lines are kept at most by any script, given which lines are equal.
template <typename Eq>
size_t Lcs(size_t n, size_t m, const Eq& eq) {
  std::vector<size_t> prev(m + 1), cur(m + 1);
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < m; ++j) cur[j + 1] = eq(i, j) ? prev[j] + 1 : std::max(prev[j + 1], cur[j]);
    std::swap(prev, cur);
  }
  return prev[m];
}

// Splits a complete script into what is shown with `ctx` lines of context.
inline std::vector<Hunk> Hunks(const Script& s, size_t ctx) {
  std::vector<Hunk> r;
  std::vector<size_t> l(s.size() + 1), rr(s.size() + 1);
  for (size_t i = 0; i < s.size(); ++i) l[i + 1] = l[i] + (s[i].kind != '+'), rr[i + 1] = rr[i] + (s[i].kind != '-');
  size_t i = 0, done = 0;
  while (i < s.size()) {
    if (s[i].kind == ' ') {
      ++i;
      continue;
    }
    const size_t from = i - std::min(ctx, i - done);
    size_t last = i;
    size_t j = i + 1, gap = 0;
    for (; j < s.size(); ++j) {
      if (s[j].kind == ' ') {
        ++gap;
        if (gap / 2 >= ctx && gap > 2 * ctx && ctx < (size_t{1} << 62)) break;
      } else {
        gap = 0, last = j;
      }
    }
    const size_t to = last + 1 + std::min(ctx, s.size() - last - 1);
    Hunk h{l[from], l[to] - l[from], rr[from], rr[to] - rr[from], Script(s.begin() + from, s.begin() + to)};
    done = to;
    i = to;
    r.push_back(std::move(h));
  }
  return r;
}

inline std::string Show(const Line& l) { return l.text + "\n" + (l.nl ? "" : std::string(kMarker) + "\n"); }
inline std::string UPos(size_t at, size_t n) { return n == 0 ? mc::Cat(at, ",0") : n == 1 ? mc::Cat(at + 1) : mc::Cat(at + 1, ",", n); }
inline std::string RPos(size_t at, size_t n) { return n == 0 ? mc::Cat(at) : n == 1 ? mc::Cat(at + 1) : mc::Cat(at + 1, ",", at + n); }

inline std::string Format(const std::vector<Hunk>& hunks, Opt::OutputFormat f, bool headers, size_t width) {
  std::string o;
  for (auto& h : hunks) {
    // Blocks of deletions followed by insertions.
    struct Block {
      std::vector<const Line*> del, add, both;
    };
    std::vector<Block> blocks;
    for (size_t i = 0; i < h.e.size();) {
      Block b;
      if (h.e[i].kind == ' ') {
        while (i < h.e.size() && h.e[i].kind == ' ') b.both.push_back(&h.e[i++].line);
      } else {
        while (i < h.e.size() && h.e[i].kind == '-') b.del.push_back(&h.e[i++].line);
        while (i < h.e.size() && h.e[i].kind == '+') b.add.push_back(&h.e[i++].line);
      }
      blocks.push_back(std::move(b));
    }
    switch (f) {
      case Opt::OutputFormat::kUnified:
        if (headers) o += "@@ -" + UPos(h.l, h.ln) + " +" + UPos(h.r, h.rn) + " @@\n";
        for (auto& e : h.e) o += e.kind + Show(e.line);
        break;
      case Opt::OutputFormat::kContext: {
        bool del = false, add = false;
        for (auto& b : blocks) del |= !b.del.empty(), add |= !b.add.empty();
        if (headers) o += "***************\n*** " + RPos(h.l, h.ln) + " ****\n";
        if (del) {
          for (auto& b : blocks) {
            for (auto* x : b.both) o += "  " + Show(*x);
            for (auto* x : b.del) o += (b.add.empty() ? "- " : "! ") + Show(*x);
          }
        }
        if (headers) o += "--- " + RPos(h.r, h.rn) + " ----\n";
        if (add) {
          for (auto& b : blocks) {
            for (auto* x : b.both) o += "  " + Show(*x);
            for (auto* x : b.add) o += (b.del.empty() ? "+ " : "! ") + Show(*x);
          }
        }
        break;
      }
      case Opt::OutputFormat::kNormal: {
        size_t l = h.l, r = h.r;
        for (auto& b : blocks) {
          l += b.both.size(), r += b.both.size();
          if (!b.both.empty()) continue;
          if (headers) o += RPos(l, b.del.size()) + (b.del.empty() ? "a" : b.add.empty() ? "d" : "c") + RPos(r, b.add.size()) + "\n";
          for (auto* x : b.del) o += "< " + Show(*x);
          if (!b.del.empty() && !b.add.empty()) o += "---\n";
          for (auto* x : b.add) o += "> " + Show(*x);
          l += b.del.size(), r += b.add.size();
        }
        break;
      }
      case Opt::OutputFormat::kSideBySide: {
        const size_t col = width > 4 ? (width - 3) / 2 : 1;
        const auto row = [&](const Line* a, char mark, const Line* b) {
          std::string left = a ? a->text.substr(0, col) : "";
          left.resize(col, ' ');
          std::string line = left + " " + mark + " " + (b ? b->text.substr(0, col) : "");
          line.erase(line.find_last_not_of(' ') + 1);
          o += line + "\n";
          if (a && !a->nl) o += std::string(kMarker) + "\n";
          if (b && !b->nl && a != b) o += std::string(kMarker) + "\n";
        };
        for (auto& b : blocks) {
          for (auto* x : b.both) row(x, ' ', x);
          for (size_t i = 0; i < std::max(b.del.size(), b.add.size()); ++i) {
            const Line* x = i < b.del.size() ? b.del[i] : nullptr;
            const Line* y = i < b.add.size() ? b.add[i] : nullptr;
            row(x, x && y ? '|' : x ? '<' : '>', y);
          }
        }
        break;
      }
    }
  }
  return o;
}

inline std::string Text(const Script& s) {
  std::string r;
  for (auto& e : s) r += e.kind + e.line.text + (e.line.nl ? " " : "$ ");
  return r;
}

// The complete script of an algorithm: all lines with how they change. Empty if there are no changes.
inline Script FullScript(mc::Ctx& c, const std::string& lhs, const std::string& rhs, Opt& o, const std::string& what) {
  o.context_size = 1000000;
  o.output_format = Opt::OutputFormat::kUnified;
  o.file_header_use = Opt::FileHeaderUse::kNone;
  o.show_chunk_headers = true;
  const auto out = mbo::diff::Diff::FileDiff({.data = lhs, .name = "l"}, {.data = rhs, .name = "r"}, o);
  MC_CHECK(c, out.ok(), what, ": fails: ", std::string(out.status().message()));
  std::string why;
  const auto hunks = ParseUnified(*out, why);
  MC_CHECK(c, hunks.has_value(), what, ": ", why, " in\n", *out);
  if (hunks->empty()) return {};
  MC_CHECK(c, hunks->size() == 1, what, ": has ", hunks->size(), " chunks though all context is to be shown\n", *out);
  return (*hunks)[0].e;
}

inline const char* Name(Opt::Algorithm a) { return a == Opt::Algorithm::kMyers ? "myers" : a == Opt::Algorithm::kNaive ? "naive" : "direct"; }
}  // namespace dr
