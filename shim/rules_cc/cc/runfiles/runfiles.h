#pragma once
#include <cstdlib>
#include <memory>
#include <string>
namespace rules_cc::cc::runfiles {
class Runfiles {
 public:
  static Runfiles* CreateForTest(const std::string&, std::string* err) {
    const char* d = std::getenv("TEST_SRCDIR");
    if (!d) { *err = "no TEST_SRCDIR"; return nullptr; }
    auto* r = new Runfiles; r->dir_ = d; return r;
  }
  static Runfiles* CreateForTest(std::string* err) { return CreateForTest("", err); }
  std::string Rlocation(const std::string& p) const { return dir_ + "/" + p; }
 private:
  std::string dir_;
};
}
