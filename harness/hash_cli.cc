// The hash command, run in-process, against the library's one-shot hashes.
#include "lib/mc.h"
#include "harness/hash_algs.h"
#include <array>
#include <iostream>
#include <sstream>
#define main hash_cli_main
#include "mbo/hash/hash_tool.cc"
#undef main

namespace {
struct Known {
  const char* name;
  uint64_t (*h)(std::string_view);
};
const Known kKnown[] = {{"dumbo", [](std::string_view d) { return mbo::hash::dumbo::Algorithm::GetHash64(d); }},
                        {"fambo", [](std::string_view d) { return mbo::hash::fambo::Algorithm::GetHash64(d); }},
                        {"fnv1a", [](std::string_view d) { return mbo::hash::fnv1a::Algorithm::GetHash64(d); }},
                        {"mumbo", [](std::string_view d) { return mbo::hash::mumbo::Algorithm::GetHash64(d); }},
                        {"murmur3", [](std::string_view d) { return mbo::hash::murmur3::Algorithm::GetHash64(d); }},
                        {"siphash", [](std::string_view d) { return mbo::hash::siphash::Algorithm::GetHash64(d); }}};
std::string Upper(uint64_t v) {
  std::string r(16, '0');
  for (int i = 15; i >= 0; --i, v >>= 4) r[i] = "0123456789ABCDEF"[v & 15];
  return r;
}
struct Result {
  int rc;
  std::string out, err;
};
Result RunCli(const std::vector<std::string>& args, const std::string& in) {
  std::vector<std::string> store = {"tool"};
  store.insert(store.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  std::ostringstream out, err;
  std::istringstream cin_s(in);
  auto *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf()), *i = std::cin.rdbuf(cin_s.rdbuf());
  std::cin.clear();
  Result r;
  r.rc = hash_cli_main(static_cast<int>(store.size()), argv.data());
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  std::cin.rdbuf(i);
  r.out = out.str();
  r.err = err.str();
  return r;
}
void Hashed(mc::Ctx& c, const Known& k, const Result& r, const std::vector<std::string>& data, const std::string& what) {
  std::string want;
  for (auto& d : data) want += Upper(k.h(d)) + "\n";
  c.step();
  c.state(r.out);
  MC_CHECK(c, r.rc == 0 && r.err.empty(), k.name, " over ", what, " gives exit code ", r.rc, " and says ", mc::Quote(r.err));
  MC_CHECK(c, r.out == want, k.name, " over ", what, " prints ", mc::Quote(r.out), " want ", mc::Quote(want));
}
const std::vector<std::string>& Bytes() {
  static const std::vector<std::string> v = {"", "a", " ", "\t", "\r", "-", "--", "-x", "\"", "\x80\xff", "%s%n", "ab c", "\\n", "\x1a", "Z"};
  return v;
}
}  // namespace

// Data given as an argument: every byte string of length up to 2 (arguments hold no zero byte), combinations and all lengths.
MC_SECTION(argument_bytes) {
  const Known& k = kKnown[c.choose(6)];
  std::string s;
  const int n = c.choose(mc::Tier(2, 3));
  for (int i = 0; i < n; ++i) s += static_cast<char>(1 + c.choose(255));
  Hashed(c, k, RunCli({k.name, s}, "ignored\nlines\n"), {s}, mc::Quote(s));
}
MC_SECTION(argument_lengths) {
  const Known& k = kKnown[c.choose(6)];
  const std::string s = [&] { std::string m = ha::Message(c.choose(mc::Tier(600, 5000))); for (char& ch : m) if (!ch || ch == '\n') ch = 'n'; return m; }();
  if (c.flip()) Hashed(c, k, RunCli({k.name, s}, ""), {s}, mc::Cat(s.size(), " bytes"));
  else Hashed(c, k, RunCli({k.name}, s + "\n" + s + "\n"), {s, s}, mc::Cat("two lines of ", s.size(), " bytes"));
}
MC_SECTION(argument_multiline) {
  const Known& k = kKnown[c.choose(6)];
  const std::string s = c.pick(Bytes()) + "\n" + c.pick(Bytes()) + (c.flip() ? "\n" : "");
  Hashed(c, k, RunCli({k.name, s}, ""), {s}, mc::Quote(s));
}
// Standard input: every line sequence of the bound, with and without a final newline, zero bytes included.
MC_SECTION(lines) {
  const Known& k = kKnown[c.choose(6)];
  const int n = c.choose(mc::Tier(4, 5));
  std::vector<std::string> lines;
  std::string in;
  for (int i = 0; i < n; ++i) {
    const int p = c.choose(static_cast<int>(Bytes().size()) + 1);
    lines.push_back(p < static_cast<int>(Bytes().size()) ? Bytes()[p] : std::string("x\0y", 3));
    in += lines.back() + "\n";
  }
  if (n && c.flip()) {  // No newline at the end: an unfinished last line counts unless nothing is there.
    in.pop_back();
    if (lines.back().empty()) lines.pop_back();
  }
  Hashed(c, k, RunCli({k.name}, in), lines, mc::Quote(in));
}
// Everything else is refused: exit code 2, a message, nothing on the output, and standard input is left alone.
MC_SECTION(refused) {
  static const std::vector<std::string> algs = {"dumbo", "fambo", "fnv1a", "mumbo", "murmur3", "siphash", "", "jumbo", "DUMBO", "dumb", "dumboo", " dumbo", "fnv1a ", "murmur", "sip", "xxh64", "zzz", "aaa", "g", "-", "--help"};
  const int n = c.choose(5);
  std::vector<std::string> args;
  for (int i = 0; i < n; ++i) args.push_back(i == 0 ? c.pick(algs) : (c.flip() ? "x" : "dumbo"));
  const bool known = n > 0 && std::any_of(std::begin(kKnown), std::end(kKnown), [&](auto& k) { return args[0] == k.name; });
  if (known && n < 3) return;
  const Result r = RunCli(args, "line\n");
  c.step();
  c.state(r.err);
  std::string what;
  for (auto& a : args) what += mc::Quote(a) + " ";
  MC_CHECK(c, r.rc == 2 && r.out.empty() && !r.err.empty() && r.err.back() == '\n', "arguments ", what, "give exit code ", r.rc, ", output ", mc::Quote(r.out), ", message ", mc::Quote(r.err));
}
