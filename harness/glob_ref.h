// A glob matcher that follows the documented syntax by backtracking over the parts of the expression.
#pragma once
#include <algorithm>
#include <cctype>
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace {
using Cp = uint32_t;

std::vector<Cp> Decode(std::string_view s) {
  std::vector<Cp> r;
  for (size_t i = 0; i < s.size();) {
    const unsigned char ch = s[i];
    if (ch < 0x80) r.push_back(ch), ++i;
    else if (ch < 0xE0) r.push_back((ch & 31) << 6 | (s[i + 1] & 63)), i += 2;
    else r.push_back((ch & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)), i += 3;
  }
  return r;
}

struct Tok {
  enum Kind { kChar, kStar, kAny, kStarStar, kSet } kind = kChar;
  Cp ch = 0;
  bool neg = false;
  std::set<Cp> set;
  bool wild() const { return kind != kChar; }
};

struct Parsed {
  enum State { kOk, kError, kBadSet, kUnspecified } state = kOk;  // kBadSet: the set can not be built.
  std::vector<Tok> toks;
};

const std::map<std::string, std::function<bool(int)>>& Classes() {
  static const std::map<std::string, std::function<bool(int)>> k = {
      {"alpha", [](int c) { return std::isalpha(c) != 0; }}, {"digit", [](int c) { return std::isdigit(c) != 0; }},
      {"alnum", [](int c) { return std::isalnum(c) != 0; }}, {"upper", [](int c) { return std::isupper(c) != 0; }},
      {"lower", [](int c) { return std::islower(c) != 0; }}, {"punct", [](int c) { return std::ispunct(c) != 0; }},
      {"space", [](int c) { return std::isspace(c) != 0; }}, {"xdigit", [](int c) { return std::isxdigit(c) != 0; }}};
  return k;
}

Parsed Parse(std::string_view pat, bool star_star, bool ranges) {
  Parsed r;
  const std::vector<Cp> p = Decode(pat);
  const size_t n = p.size();
  bool bad_set = false, unspec = false;
  for (size_t i = 0; i < n;) {
    Tok t;
    if (p[i] == '\\') {
      if (i + 1 >= n) return {.state = unspec ? Parsed::kUnspecified : Parsed::kError};
      t.ch = p[i + 1];
      i += 2;
    } else if (p[i] == '*') {
      size_t e = i;
      while (e < n && p[e] == '*') ++e;
      t.kind = star_star && e - i >= 2 ? Tok::kStarStar : Tok::kStar;
      i = e;
    } else if (p[i] == '?') {
      t.kind = Tok::kAny, ++i;
    } else if (p[i] == '[' && ranges) {
      if (i + 2 < n && p[i + 1] == '/' && p[i + 2] == ']') {
        t.ch = '/';
        i += 3;
      } else {
        t.kind = Tok::kSet;
        ++i;
        if (i < n && p[i] == '!') t.neg = true, ++i;
        bool first = true, closed = false;
        std::optional<Cp> last;  // What a '-' extends.
        while (i < n) {
          if (p[i] == ']' && !first) {
            closed = true, ++i;
            break;
          }
          if (p[i] == '/') unspec = true;
          if (p[i] == '-') {
            if (i + 1 < n && p[i + 1] == ']') {
              t.set.insert('-'), ++i, first = false, last.reset();
              continue;
            }
            if (first) {
              t.set.insert('-'), ++i, first = false, last.reset();
              // A dash that starts the set can not also be an end point.
              if (i < n && (p[i] == '-' || p[i] == '[' || p[i] == '\\')) unspec = true;
              else if (i < n && p[i] != ']' ) {
                if (p[i] == '/') unspec = true;
                last = p[i];
                t.set.insert(p[i]), ++i;
                if (i + 1 < n && p[i] == '-') unspec = true;
              }
              continue;
            }
            if (!last) unspec = true;
            ++i;
            if (i >= n) return {.state = unspec ? Parsed::kUnspecified : Parsed::kError};
            Cp to = p[i];
            if (to == '\\') {
              if (i + 1 >= n) return {.state = unspec ? Parsed::kUnspecified : Parsed::kError};
              to = p[++i];
              if (to == '/') unspec = true;
            } else if (to == '[' || to == '-' || to == '/') {
              unspec = true;
            }
            ++i;
            if (last) {
              if (to < *last) bad_set = true;
              if (*last <= '/' && to >= '/') unspec = true;
              for (Cp x = *last; x <= to; ++x) t.set.insert(x);
            }
            last.reset();
            continue;
          }
          if (p[i] == '[' && i + 1 < n && p[i + 1] == ':') {
            size_t e = i + 2;
            while (e + 1 < n && !(p[e] == ':' && p[e + 1] == ']')) ++e;
            if (e + 1 >= n) return {.state = unspec ? Parsed::kUnspecified : Parsed::kError};
            std::string name(p.begin() + i + 2, p.begin() + e);
            if (name.empty() || !std::all_of(name.begin(), name.end(), [](unsigned char x) { return std::isalpha(x); })) {
              return {.state = unspec ? Parsed::kUnspecified : Parsed::kError};
            }
            auto it = Classes().find(name);
            if (it == Classes().end()) bad_set = true;
            else for (Cp x = 0; x < 128; ++x) if (it->second(static_cast<int>(x))) t.set.insert(x);
            if (name == "punct") unspec = true;  // Has the slash.
            i = e + 2, first = false, last.reset();
            continue;
          }
          if (p[i] == '\\') {
            if (i + 1 >= n) return {.state = unspec ? Parsed::kUnspecified : Parsed::kError};
            ++i;
            if (p[i] == '/') unspec = true;
          }
          last = p[i];
          t.set.insert(p[i]), ++i, first = false;
        }
        if (!closed) return {.state = unspec ? Parsed::kUnspecified : Parsed::kError};
      }
    } else {
      t.ch = p[i], ++i;
    }
    if (t.kind == Tok::kChar && t.ch == '/' && !r.toks.empty() && r.toks.back().kind == Tok::kChar && r.toks.back().ch == '/') continue;
    r.toks.push_back(std::move(t));
  }
  if (r.toks.size() > 1 && r.toks.back().kind == Tok::kChar && r.toks.back().ch == '/') r.toks.pop_back();
  r.state = unspec ? Parsed::kUnspecified : bad_set ? Parsed::kBadSet : Parsed::kOk;
  return r;
}

bool IsSlash(const Tok& t) { return t.kind == Tok::kChar && t.ch == '/'; }

// The documentation and the tests disagree on a pattern that starts with two recursive parts.
bool StartsDouble(const std::vector<Tok>& t) {
  return t.size() >= 3 && t[0].kind == Tok::kStarStar && IsSlash(t[1]) && t[2].kind == Tok::kStarStar && (t.size() == 3 || IsSlash(t[3]));
}

struct Matcher {
  const std::vector<Tok>& t;
  const std::vector<Cp>& s;
  bool neg_slash;
  std::map<std::pair<size_t, size_t>, bool> memo;
  bool Match(size_t i, size_t j) {
    auto key = std::make_pair(i, j);
    if (auto it = memo.find(key); it != memo.end()) return it->second;
    const bool r = Do(i, j);
    memo[key] = r;
    return r;
  }
  bool Do(size_t i, size_t j) {
    if (i == t.size()) return j == s.size();
    // "/**" in front of a '/' or at the end: Nothing or one and more characters behind a slash.
    if (IsSlash(t[i]) && i + 1 < t.size() && t[i + 1].kind == Tok::kStarStar && (i + 2 == t.size() || IsSlash(t[i + 2]))) {
      if (Match(i + 2, j)) return true;
      if (j >= s.size() || s[j] != '/') return false;
      for (size_t e = j + 2; e <= s.size(); ++e) if (Match(i + 2, e)) return true;
      return false;
    }
    if (i == 0 && t[0].kind == Tok::kStarStar && t.size() > 1 && IsSlash(t[1])) {
      if (Match(2, j)) return true;
      for (size_t e = j + 1; e < s.size(); ++e) if (s[e] == '/' && Match(2, e + 1)) return true;
      return false;
    }
    switch (t[i].kind) {
      case Tok::kChar: return j < s.size() && s[j] == t[i].ch && Match(i + 1, j + 1);
      case Tok::kAny: return j < s.size() && s[j] != '/' && Match(i + 1, j + 1);
      case Tok::kStar:
        for (size_t e = j;; ++e) {
          if (Match(i + 1, e)) return true;
          if (e >= s.size() || s[e] == '/') return false;
        }
      case Tok::kStarStar:
        for (size_t e = j; e <= s.size(); ++e) if (Match(i + 1, e)) return true;
        return false;
      case Tok::kSet:
        if (j >= s.size()) return false;
        if (t[i].set.contains(s[j]) == t[i].neg) return false;
        if (t[i].neg && s[j] == '/' && !neg_slash) return false;
        return Match(i + 1, j + 1);
    }
    return false;
  }
};

// Undecided (nullopt) if it depends on whether a negative range matches a slash.
std::optional<bool> RefMatch(const std::vector<Tok>& t, const std::vector<Cp>& s) {
  const bool a = Matcher{t, s, true, {}}.Match(0, 0);
  bool neg = false;
  for (auto& x : t) neg |= x.kind == Tok::kSet && x.neg;
  if (neg && Matcher{t, s, false, {}}.Match(0, 0) != a) return std::nullopt;
  return a;
}

}  // namespace
