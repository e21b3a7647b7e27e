// Reference for the template language, written from its documentation: one left-to-right pass that copies text, looks
// up values, repeats section bodies and never looks at inserted text again.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <variant>
#include <vector>

namespace mref {
struct Dict;
using Sections = std::vector<std::shared_ptr<Dict>>;
struct Dict {
  std::map<std::string, std::variant<std::string, Sections>> data;
};
struct Loop {
  int64_t value;
};
struct Env {
  std::map<std::string, std::variant<std::string, Loop>> data;
};
enum class Res { kOk, kError, kUnspecified };

inline bool IsNameStart(char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool IsDigit(char c) { return c >= '0' && c <= '9'; }
inline bool IsNameChar(char c) { return IsNameStart(c) || IsDigit(c); }
inline bool IsName(std::string_view s) {
  if (s.empty() || !IsNameStart(s[0])) return false;
  for (char c : s)
    if (!IsNameChar(c)) return false;
  return true;
}
inline bool IsSpace(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'; }

struct Tag {
  size_t pos, end;
  bool section;
  std::string name;
  char kind;  // 0, '=' or ':'
  std::string extra;
};

inline std::optional<Tag> NextTag(std::string_view t, size_t from) {
  for (size_t p = from; p + 1 < t.size(); ++p) {
    if (t[p] != '{' || t[p + 1] != '{') continue;
    Tag tag{p, 0, false, "", 0, ""};
    size_t i = p + 2;
    if (i < t.size() && t[i] == '#') tag.section = true, ++i;
    const size_t n = i;
    if (i >= t.size() || !IsNameStart(t[i])) continue;
    while (i < t.size() && IsNameChar(t[i])) ++i;
    tag.name = std::string(t.substr(n, i - n));
    if (i < t.size() && (t[i] == '=' || t[i] == ':')) {
      tag.kind = t[i++];
      const size_t e = t.find("}}", i);
      if (e == std::string_view::npos) continue;
      // "}}" must follow the text directly; a single '}' inside belongs to the text.
      tag.extra = std::string(t.substr(i, e - i));
      i = e;
    }
    if (t.substr(i, 2) != "}}") continue;
    tag.end = i + 2;
    return tag;
  }
  return std::nullopt;
}

struct Interp {
  bool unspecified = false;
  bool error = false;

  struct Failed {};

  bool Fail() { error = true; return false; }
  bool Unspec() { unspecified = true; return false; }

  static std::optional<int64_t> Int(std::string_view s) {
    while (!s.empty() && (IsSpace(s[0]) || s[0] == '\v')) s.remove_prefix(1);
    while (!s.empty() && (IsSpace(s.back()) || s.back() == '\v')) s.remove_suffix(1);
    bool neg = false;
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) neg = s[0] == '-', s.remove_prefix(1);
    if (s.empty()) return std::nullopt;
    int64_t v = 0;
    for (char c : s) {
      if (!IsDigit(c)) return std::nullopt;
      v = v * 10 + (c - '0');
      if (v > (int64_t{1} << 33)) return std::nullopt;
    }
    if (neg) v = -v;
    if (v > INT32_MAX || v < INT32_MIN) return std::nullopt;
    return v;
  }

  bool Number(const Dict& d, const Env& env, std::string_view s, int64_t& out) {
    if (s.empty()) return true;
    if (auto v = Int(s)) return out = *v, true;
    const std::string key(s);
    if (auto it = d.data.find(key); it != d.data.end()) {
      if (auto* str = std::get_if<std::string>(&it->second))
        if (auto v = Int(*str)) return out = *v, true;
      return Fail();
    }
    if (auto it = env.data.find(key); it != env.data.end()) {
      if (auto* l = std::get_if<Loop>(&it->second)) return out = l->value, true;
      if (auto v = Int(std::get<std::string>(it->second))) return out = *v, true;
      return Fail();
    }
    return Fail();
  }

  // A join: a quoted string or a reference to a value.
  bool Join(const Dict& d, const Env& env, std::string_view s, std::string& out) {
    if (s.empty()) return true;
    if (s[0] == '"' || s[0] == '\'') {
      if (s.size() < 2 || s.back() != s[0]) return Unspec();
      s.remove_prefix(1);
      s.remove_suffix(1);
      std::string r;
      for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '"' || s[i] == '\'') return Unspec();
        if (s[i] == '\\') {
          if (i + 1 < s.size() && s[i + 1] == 'n') {
            r += '\n', ++i;
            continue;
          }
          return Unspec();
        }
        r += s[i];
      }
      out = r;
      return true;
    }
    if (!IsName(s)) return Unspec();
    const std::string key(s);
    if (auto it = d.data.find(key); it != d.data.end()) {
      if (auto* str = std::get_if<std::string>(&it->second)) return out = *str, true;
      return Fail();
    }
    if (auto it = env.data.find(key); it != env.data.end()) {
      if (auto* str = std::get_if<std::string>(&it->second)) return out = *str, true;
      return Fail();
    }
    return Fail();
  }

  // Line breaks behind and blanks before a tag that stands on a line of its own go with the tag.
  static bool OwnLine(std::string_view before, std::string_view after, size_t& blanks, size_t& brk) {
    blanks = brk = 0;
    if (after.empty() || (after[0] != '\n' && after[0] != '\r')) return false;
    size_t p = before.size();
    while (p > 0 && (before[p - 1] == ' ' || before[p - 1] == '\t')) --p;
    if (p > 0 && before[p - 1] != '\n' && before[p - 1] != '\r') return false;
    blanks = before.size() - p;
    brk = after.substr(0, 2) == "\r\n" ? 2 : 1;
    return true;
  }

  bool Expand(const Dict& d, Env& env, const std::string& text, std::string& out) {
    out.clear();
    size_t at = 0;
    while (true) {
      const auto tag = NextTag(text, at);
      if (!tag) {
        out.append(text, at, std::string::npos);
        return true;
      }
      out.append(text, at, tag->pos - at);
      size_t next = tag->end, blanks = 0, brk = 0;
      if (tag->section || tag->kind == '=') OwnLine(out, std::string_view(text).substr(tag->end), blanks, brk);
      next += brk;
      if (!tag->section) {
        if (tag->kind == ':' || (tag->kind == '=' && tag->extra.empty())) return Unspec();
        if (tag->kind == '=') {
          if (d.data.count(tag->name)) return Fail();
          auto it = env.data.find(tag->name);
          if (it != env.data.end() && std::holds_alternative<Loop>(it->second)) return Fail();
          env.data[tag->name] = tag->extra;
          out.resize(out.size() - blanks);
          at = next;
          continue;
        }
        if (auto it = d.data.find(tag->name); it != d.data.end()) {
          auto* s = std::get_if<std::string>(&it->second);
          if (s == nullptr) return Fail();
          out += *s;
        } else if (auto jt = env.data.find(tag->name); jt != env.data.end()) {
          if (auto* l = std::get_if<Loop>(&jt->second)) out += std::to_string(l->value);
          else out += std::get<std::string>(jt->second);
        } else {
          out.append(text, tag->pos, tag->end - tag->pos);  // An unknown value stays as it is.
        }
        at = next;
        continue;
      }
      const std::string end_tag = "{{/" + tag->name + "}}";
      const size_t e = text.find(end_tag, next);
      if (e == std::string::npos) return Fail();
      size_t eb = 0, ek = 0;
      // A leading part of the line may have been the start tag: only what is left counts.
      OwnLine(std::string_view(text).substr(0, e), std::string_view(text).substr(e + end_tag.size()), eb, ek);
      const std::string body = text.substr(next, e - eb - next);
      std::string replaced;
      if (!Section(*tag, d, env, body, replaced)) return false;
      out.resize(out.size() - blanks);
      out += replaced;
      at = e + end_tag.size() + ek;
    }
  }

  bool Section(const Tag& tag, const Dict& d, Env& env, const std::string& body, std::string& out) {
    out.clear();
    if (tag.kind != '=') {
      const Sections* list = nullptr;
      if (auto it = d.data.find(tag.name); it != d.data.end()) {
        list = std::get_if<Sections>(&it->second);
        if (list == nullptr) return Fail();
      } else if (env.data.count(tag.name)) {
        return Fail();
      } else {
        return true;
      }
      std::string join;
      if (!Join(d, env, tag.extra, join)) return false;
      bool first = true;
      for (const auto& sub : *list) {
        if (!first) out += join;
        first = false;
        std::string one;
        if (!Expand(*sub, env, body, one)) return false;
        out += one;
      }
      return true;
    }
    if (tag.extra.empty()) return true;  // A comment.
    return tag.extra[0] == '[' ? List(tag, d, env, body, out) : For(tag, d, env, body, out);
  }

  bool For(const Tag& tag, const Dict& d, Env& env, const std::string& body, std::string& out) {
    std::string_view c = tag.extra;
    std::vector<std::string> parts;
    std::string join;
    for (int i = 0; i < 3; ++i) {
      while (!c.empty() && IsSpace(c[0])) c.remove_prefix(1);
      size_t n = 0;
      if (n < c.size() && c[n] == '-') ++n;
      if (n < c.size() && IsDigit(c[n])) {
        while (n < c.size() && IsDigit(c[n])) ++n;
      } else if (n == 0 && !c.empty() && IsNameStart(c[0])) {
        while (n < c.size() && IsNameChar(c[n])) ++n;
      } else if (n != 0 || i != 2) {
        return Fail();
      }
      parts.emplace_back(c.substr(0, n));
      c.remove_prefix(n);
      while (!c.empty() && IsSpace(c[0])) c.remove_prefix(1);
      if (c.empty()) {
        if (i == 0) return Fail();
        break;
      }
      if (c[0] != ';') return Fail();
      c.remove_prefix(1);
      if (i == 2) join = std::string(c);
    }
    int64_t start = 0, end = 0, step = 1;
    if (!Number(d, env, parts[0], start) || !Number(d, env, parts[1], end)) return false;
    if (parts.size() > 2 && !Number(d, env, parts[2], step)) return false;
    std::string j;
    if (!Join(d, env, join, j)) return false;
    if (step == 0) return Fail();
    if (d.data.count(tag.name) || env.data.count(tag.name)) return Fail();
    bool first = true;
    for (int64_t v = start; step > 0 ? v <= end : v >= end; v += step) {
      env.data[tag.name] = Loop{v};
      if (!first) out += j;
      first = false;
      std::string one;
      if (!Expand(d, env, body, one)) return false;
      out += one;
    }
    env.data.erase(tag.name);
    return true;
  }

  bool List(const Tag& tag, const Dict& d, Env& env, const std::string& body, std::string& out) {
    std::string_view c = tag.extra;
    c.remove_prefix(1);
    const size_t close = c.find(']');
    for (size_t i = 0; i < std::min(close, c.size()); ++i)
      if (c[i] == '\\' || c[i] == '[' || c[i] == '{' || c[i] == '}') return Unspec();
    std::vector<std::string> items;
    std::string cur;
    char quote = 0;
    size_t i = 0;
    bool any = false;
    for (; i < c.size(); ++i) {
      if (quote) {
        if (c[i] == '\\') return Unspec();
        if (c[i] == quote) {
          quote = 0;
          if (i + 1 < c.size() && c[i + 1] != ',' && c[i + 1] != ']') return Unspec();
        } else {
          cur += c[i];
        }
        continue;
      }
      if (c[i] == '\'' || c[i] == '"') {
        if (any) return Unspec();
        quote = c[i];
        any = true;
        continue;
      }
      if (c[i] == '\\') return Unspec();
      if (c[i] == ']') break;
      if (c[i] == ',') {
        if (!any) return Unspec();  // An empty element.
        items.push_back(cur);
        cur.clear();
        any = false;
        continue;
      }
      if (c[i] == ' ') return Unspec();
      cur += c[i];
      any = true;
    }
    if (quote || i >= c.size()) return Fail();
    if (!any) return Unspec();
    items.push_back(cur);
    c.remove_prefix(i + 1);
    std::string join;
    if (!c.empty()) {
      if (c[0] != ';' || c.size() < 2) return Fail();
      if (!Join(d, env, c.substr(1), join)) return false;
    }
    if (d.data.count(tag.name) || env.data.count(tag.name)) return Fail();
    bool first = true;
    for (auto& item : items) {
      // Setting the value inside of the body only lasts for that element.
      auto it = env.data.find(tag.name);
      if (it != env.data.end() && std::holds_alternative<Loop>(it->second)) return Fail();
      env.data[tag.name] = item;
      if (!first) out += join;
      first = false;
      std::string one;
      if (!Expand(d, env, body, one)) return false;
      out += one;
    }
    env.data.erase(tag.name);
    return true;
  }
};

inline Res Expand(const Dict& d, const std::map<std::string, std::string>& globals, const std::string& text, std::string& out) {
  Env env;
  for (auto& [k, v] : globals) env.data[k] = v;
  Interp in;
  if (in.Expand(d, env, text, out)) return Res::kOk;
  return in.unspecified ? Res::kUnspecified : Res::kError;
}
}  // namespace mref
