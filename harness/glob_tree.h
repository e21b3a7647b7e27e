// Directory trees for the glob harnesses: built from choices, with a model of what a walk visits.
#pragma once
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <string>
#include <vector>

#include "lib/mc.h"

namespace gt {
namespace fs = std::filesystem;
struct Node {
  std::string name;
  char kind;  // f file, d directory, l link to a file, L link to a directory, o link to its own directory, x dangling link
  std::vector<Node> sub;
};
struct Item {
  std::string rel;
  int depth;
  char kind;
};
inline const size_t kExtSize = 1234567;
inline size_t FileSize(const std::string& name) { return name == "a.x" ? 3 : name == "z." ? 0 : name == ".b" ? 7 : name == "c" ? 1000 : 12; }

inline std::string Scratch() {
  static const std::string dir = [] {
    const std::string d = mc::Cat(fs::canonical(fs::current_path()).string(), "/glob_", mc::G().replay ? 99 : mc::G().shard, "_", getpid());
    fs::create_directories(d + "/ext/dir");
    std::ofstream(d + "/ext/file.y") << std::string(kExtSize, 'x');
    std::ofstream(d + "/ext/dir/in.x") << "12345678901234";
    return d;
  }();
  return dir;
}

inline void Build(const std::string& at, const std::vector<Node>& nodes) {
  fs::create_directory(at);
  for (auto& n : nodes) {
    const std::string p = at + "/" + n.name;
    switch (n.kind) {
      case 'f': std::ofstream(p) << std::string(FileSize(n.name), 'y'); break;
      case 'd': Build(p, n.sub); break;
      case 'l': fs::create_symlink(Scratch() + "/ext/file.y", p); break;
      case 'L': fs::create_symlink(Scratch() + "/ext/dir", p); break;
      case 'o': fs::create_symlink(".", p); break;
      case 'x': fs::create_symlink("gone", p); break;
    }
  }
}

inline void Walk(const std::vector<Node>& nodes, const std::string& rel, int depth, bool recursive, bool follow, std::vector<Item>& out) {
  for (auto& n : nodes) {
    const std::string r = rel.empty() ? n.name : rel + "/" + n.name;
    out.push_back({r, depth, n.kind});
    if (!recursive) continue;
    if (n.kind == 'd') Walk(n.sub, r, depth + 1, recursive, follow, out);
    if (n.kind == 'L' && follow) out.push_back({r + "/in.x", depth + 1, 'f'});
  }
}
inline bool HasLoop(const std::vector<Node>& nodes) {
  for (auto& n : nodes) if (n.kind == 'o' || HasLoop(n.sub)) return true;
  return false;
}
inline std::string Show(const std::vector<Node>& nodes) {
  std::string r;
  for (auto& n : nodes) {
    r += (r.empty() ? "" : " ") + n.name + ":" + n.kind;
    if (n.kind == 'd') r += "{" + Show(n.sub) + "}";
  }
  return r;
}

inline std::vector<Node> Choose(mc::Ctx& c, int level = 0) {
  static const std::vector<std::vector<std::string>> kNames = {{"a.x", ".b", "a b*"}, {"c", ".d.x"}, {"e.x", "f"}};
  static const std::vector<std::string> kKinds = {"-fdlLox", mc::Thorough() ? "-fdLo" : "-fdL", "-f"};
  std::vector<Node> r;
  const size_t slots = level == 0 ? mc::Tier(2, 3) : level == 1 ? 2 : 1;
  for (size_t i = 0; i < slots; ++i) {
    std::string kinds = kKinds[level];
    if (i == 2) kinds = "-fd";
    const char k = kinds[c.choose(static_cast<int>(kinds.size()))];
    if (k == '-') continue;
    Node n{kNames[level][i], k, {}};
    if (k == 'd' && i < 2) n.sub = Choose(c, level + 1);
    r.push_back(std::move(n));
  }
  return r;
}
}  // namespace gt
