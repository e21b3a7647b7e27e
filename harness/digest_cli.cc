// The digest command, run in-process over a scratch directory, against a model of its documentation.
#include "lib/mc.h"
#include "lib/fault_io.h"
#include "harness/digest_ref.h"

#include <filesystem>
#include <optional>
#include <map>
#include <array>
#include <fstream>
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#define main digest_cli_main
#include "mbo/digest/digest_main.cc"
#undef main

namespace {
namespace stdfs = std::filesystem;
struct Alg {
  const char* name;
  size_t size;
};
const Alg kAlgs[] = {{"md5", 16},       {"sha1", 20},     {"sha224", 28},   {"sha256", 32},   {"sha384", 48},   {"sha512", 64},
                     {"sha512-224", 28}, {"sha512-256", 32}, {"sha3-224", 28}, {"sha3-256", 32}, {"sha3-384", 48}, {"sha3-512", 64},
                     {"shake128", 32},  {"shake256", 32}, {"blake2b", 64},  {"blake2b-256", 32}, {"blake3", 32}};
std::string HexDigest(const Alg& a, std::string_view data) {
  const std::string d = ref::Digest(a.name, a.size, data);
  return mc::Hex(d.data(), d.size());
}

std::string Pattern(size_t n) {
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i) m[i] = static_cast<char>((i * 2654435761u) >> 13);
  return m;
}
std::string Scratch() {
  static const std::string dir = [] {
    const std::string d = mc::Cat(stdfs::current_path().string(), "/cli_", mc::G().replay ? 99 : mc::G().shard, "_", getpid());
    stdfs::create_directories(d + "/dir");
    stdfs::create_directories(d + "/sub");
    auto put = [&](const std::string& n, const std::string& s) { std::ofstream(d + "/" + n, std::ios::binary) << s; };
    put("abc", "abc");
    put("empty", "");
    put("two words", "data\n");
    put("*star", "s");
    put(" lead", "l");
    put("big", Pattern(150001));
    for (size_t n : {65535, 65536, 65537, 131072, 131073}) put("n" + std::to_string(n), Pattern(n));
    put("sub/x", "in sub");
    stdfs::current_path(d);
    return d;
  }();
  return dir;
}
std::optional<std::string> Content(const std::string& f, const std::string& in) {
  static const std::map<std::string, std::string> m = {{"abc", "abc"}, {"empty", ""}, {"two words", "data\n"}, {"*star", "s"},
                                                       {" lead", "l"}, {"big", Pattern(150001)}, {"sub/x", "in sub"}};
  if (f == "-") return in;
  if (f[0] == 'n') return Pattern(std::stoul(f.substr(1)));
  auto it = m.find(f);
  if (it == m.end()) return std::nullopt;
  return it->second;
}

struct Result {
  int rc;
  std::string out, err;
};
Result RunCli(const std::vector<std::string>& args, const std::string& in) {
  const std::string home = Scratch();
  for (auto& [n, f] : absl::flags_internal::Registry()) f->ResetShim_();
  std::vector<std::string> store = {"digest"};
  store.insert(store.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  std::ostringstream out, err;
  std::istringstream cin_s(in);
  auto* o = std::cout.rdbuf(out.rdbuf());
  auto* e = std::cerr.rdbuf(err.rdbuf());
  auto* i = std::cin.rdbuf(cin_s.rdbuf());
  std::cin.clear();
  Result r;
  r.rc = digest_cli_main(static_cast<int>(store.size()), argv.data());
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  std::cin.rdbuf(i);
  stdfs::current_path(home);
  r.out = out.str();
  r.err = err.str();
  return r;
}
std::string Join(const std::vector<std::string>& v) {
  std::string r;
  for (auto& s : v) r += mc::Quote(s) + " ";
  return r;
}
}  // namespace

// Computing: every sequence of up to 3 arguments x flags.
MC_SECTION(compute) {
  static const char* kFiles[] = {"abc", "empty", "big", "dir", "missing", "two words", "-"};
  const int flags = c.choose(8);  // reverse, skip dirs long, skip dirs short
  const Alg& a = kAlgs[std::array<int, 3>{3, 0, 16}[c.choose(3)]];
  const int n = 1 + c.choose(mc::Tier(3, 4));
  std::vector<std::string> args;
  if (flags & 1) args.push_back("--reverse");
  if (flags & 2) args.push_back("--ignore_directories");
  if (flags & 4) args.push_back("-d");
  if (c.flip()) {
    args.push_back(mc::Cat("--algorithm=", a.name));
  } else {
    args.push_back("-a");
    args.push_back(a.name);
    args.push_back("--algorithm=sha512");  // -a wins
  }
  std::string want;
  int rc = 0;
  std::vector<std::string> complained;
  bool stdin_used = false;
  for (int i = 0; i < n; ++i) {
    const std::string f = kFiles[c.choose(7)];
    if (f == "-" && stdin_used) return;
    args.push_back(f);
    if (f == "dir") {
      if (!(flags & 6)) rc = 1, complained.push_back(f);
      continue;
    }
    auto content = Content(f, "from stdin");
    if (f == "-") stdin_used = true;
    if (!content) {
      rc = 1;
      complained.push_back(f);
      continue;
    }
    const std::string h = HexDigest(a, *content);
    want += flags & 1 ? f + "  " + h + "\n" : h + "  " + f + "\n";
  }
  c.step();
  c.detail(Join(args));
  const Result r = RunCli(args, "from stdin");
  MC_CHECK(c, r.out == want, "digest ", Join(args), "\nprinted:\n", r.out, "\nwanted:\n", want);
  MC_CHECK(c, (r.rc != 0) == (rc != 0), "digest ", Join(args), " exit ", r.rc, " wanted ", rc);
  for (auto& f : complained) MC_CHECK(c, r.err.find(f) != std::string::npos, "no message about ", f, " in ", r.err);
  MC_CHECK(c, complained.empty() == r.err.empty(), "digest ", Join(args), " stderr ", r.err);
  c.state(mc::Fnv(r.out, r.rc));
  c.sample(Join(args));
}

// Every algorithm over every size around the reading buffer, then verified with --check.
MC_SECTION(roundtrip) {
  const Alg& a = kAlgs[c.choose(std::size(kAlgs))];
  static const char* kFiles[] = {"abc", "empty", "big", "n65535", "n65536", "n65537", "n131072", "n131073", "two words", "*star", " lead", "sub/x"};
  const bool binary = c.flip(), upper = c.flip();
  std::vector<std::string> args = {mc::Cat("--algorithm=", a.name)};
  std::string want, ok, sums;
  for (auto* f : kFiles) {
    args.push_back(f);
    std::string h = HexDigest(a, *Content(f, ""));
    want += h + "  " + f + "\n";
    if (upper) for (auto& ch : h) ch = static_cast<char>(std::toupper(ch));
    sums += h + (binary ? " *" : "  ") + f + "\n";
    ok += mc::Cat(f, ": OK\n");
  }
  Result r = RunCli(args, "");
  c.step();
  MC_CHECK(c, r.out == want && r.rc == 0 && r.err.empty(), "digest ", Join(args), "\n", r.out, r.err, "\nwanted\n", want);
  const std::string given = !binary && !upper ? r.out : sums;
  r = RunCli({mc::Cat("--algorithm=", a.name), c.flip() ? "-c" : "--check", "-"}, given);
  c.step();
  MC_CHECK(c, r.out == ok && r.rc == 0 && r.err.empty(), a.name, " check of own output:\n", r.out, r.err);
  // flip one hex digit of one line: exactly that line fails
  const int line = c.choose(3);
  std::string bad = given;
  size_t pos = 0;
  for (int i = 0; i < line * 4; ++i) pos = bad.find('\n', pos) + 1;
  const size_t digit = std::array<size_t, 3>{0, a.size, 2 * a.size - 1}[c.choose(3)];
  bad[pos + digit] = bad[pos + digit] == '0' ? '1' : '0';
  std::string expect;
  for (int i = 0; i < 12; ++i) expect += mc::Cat(kFiles[i], i == line * 4 ? ": FAILED\n" : ": OK\n");
  r = RunCli({mc::Cat("--algorithm=", a.name), "-c", "-"}, bad);
  c.step();
  MC_CHECK(c, r.out == expect && r.rc != 0, a.name, " one wrong digit at ", digit, ":\n", r.out, " exit ", r.rc);
  c.state(mc::Fnv(r.out));
  c.sample(mc::Cat(a.name, " 12 files, then --check, then one flipped hex digit"));
}

// Verifying: every sequence of up to N lines over the line alphabet x every flag combination.
MC_SECTION_D(check, 3) {
  const int flags = c.choose(16);
  const bool quiet = flags & 1, status = flags & 2, ignore = flags & 4, strict = flags & 8;
  static const Alg a = kAlgs[3];
  const std::string habc = HexDigest(a, "abc"), hempty = HexDigest(a, ""), hmd5 = HexDigest(kAlgs[0], "abc");
  std::string up = habc;
  for (auto& ch : up) ch = static_cast<char>(std::toupper(ch));
  enum Kind { kOk, kBad, kMissing, kMalformed, kEmpty };
  struct Line {
    std::string text, file;
    Kind kind;
  };
  const std::vector<Line> alphabet = {{habc + "  abc", "abc", kOk},
                                      {hempty + "  abc", "abc", kBad},
                                      {habc + "  missing", "missing", kMissing},
                                      {hmd5 + "  abc", "", kMalformed},
                                      {"", "", kEmpty},
                                      {up + " *abc", "abc", kOk},
                                      {hempty + "  empty", "empty", kOk},
                                      {hempty + "  dir", "dir", kMissing},  // cannot be read
                                      {habc + " abc", "", kMalformed},
                                      {habc + "  ", "", kMalformed}};
  std::vector<std::string> args;
  if (quiet) args.push_back("--quiet");
  if (status) args.push_back("--status");
  if (ignore) args.push_back("--ignore_missing");
  if (strict) args.push_back("--strict");
  const int source = c.choose(3);  // stdin, file, file + second file
  args.push_back("-c");
  const int n = c.choose(mc::Tier(4, 5));
  std::string text, want;
  int ok = 0, bad = 0, missing = 0, malformed = 0, split = 0;
  bool formatted[2] = {false, false};  // whether a list has any line at all that says something
  for (int i = 0; i < n; ++i) {
    const Line& l = alphabet[c.choose(static_cast<int>(alphabet.size()))];
    text += l.text;
    if (i + 1 < n || c.flip()) text += "\n";  // the last line may lack its newline
    if (i == 0) split = static_cast<int>(text.size());
    if (l.kind == kOk || l.kind == kBad || l.kind == kMissing) formatted[source == 2 && i > 0 ? 1 : 0] = true;
    switch (l.kind) {
      case kOk:
        ++ok;
        if (!quiet && !status) want += l.file + ": OK\n";
        break;
      case kBad:
        ++bad;
        if (!status) want += l.file + ": FAILED\n";
        break;
      case kMissing:
        if (ignore) break;
        ++missing;
        if (!status) want += l.file + ": FAILED open or read\n";
        break;
      case kMalformed: ++malformed; break;
      case kEmpty: break;
    }
  }
  std::string in;
  const std::string home = Scratch();
  if (source == 0) {
    args.push_back("-");
    in = text;
  } else {
    const int cut = source == 1 ? static_cast<int>(text.size()) : split;
    std::ofstream(home + "/sums1", std::ios::binary | std::ios::trunc) << text.substr(0, cut);
    args.push_back("sums1");
    if (source == 2) {
      std::ofstream(home + "/sums2", std::ios::binary | std::ios::trunc) << text.substr(cut);
      args.push_back("sums2");
    }
  }
  int rc = bad || missing || (strict && malformed) ? 1 : 0;
  const bool none = ignore && ok == 0 && bad == 0;
  if (none) rc = 1;
  const bool vain = !formatted[0] || (source == 2 && !formatted[1]);  // a list that verifies nothing is no pass
  if (vain) rc = 1;
  c.step();
  c.detail(Join(args) + "\n" + text);
  const Result r = RunCli(args, in);
  MC_CHECK(c, r.out == want, "digest ", Join(args), " with\n", text, "\nprinted\n", r.out, "\nwanted\n", want);
  MC_CHECK(c, (r.rc != 0) == (rc != 0), "digest ", Join(args), " with\n", text, "\nexit ", r.rc, " wanted ", rc);
  const bool complain = malformed || missing || bad || none || vain;
  if (status) {
    MC_CHECK(c, r.err.empty(), "--status must print nothing: ", r.err);
  } else {
    MC_CHECK(c, complain == !r.err.empty(), "digest ", Join(args), " with\n", text, "\nstderr ", r.err);
    for (int k : {malformed, missing, bad})
      if (k) MC_CHECK(c, r.err.find(mc::Cat("WARNING: ", k, " ")) != std::string::npos, "count ", k, " missing in ", r.err);
  }
  c.state(mc::Fnv(r.out + r.err, r.rc));
  c.sample(Join(args) + " <<< " + mc::Quote(text));
}

// Odd command lines.
MC_SECTION(usage) {
  const int k = c.choose(7);
  Result r;
  c.step();
  switch (k) {
    case 0: r = RunCli({"-a", "nope", "abc"}, ""); MC_CHECK(c, r.rc == 1 && r.out.empty() && !r.err.empty(), r.out, r.err); break;
    case 1: r = RunCli({}, ""); MC_CHECK(c, r.rc == 1 && r.out.empty() && !r.err.empty(), r.out, r.err); break;
    case 2: r = RunCli({"-c"}, ""); MC_CHECK(c, r.rc == 1 && r.out.empty() && !r.err.empty(), r.out, r.err); break;
    case 3: r = RunCli({"-c", "missing"}, ""); MC_CHECK(c, r.rc == 1 && r.out.empty() && !r.err.empty(), r.out, r.err); break;
    case 4: r = RunCli({"--cwd=sub", "x"}, ""); MC_CHECK(c, r.rc == 0 && r.out == HexDigest(kAlgs[3], "in sub") + "  x\n", r.out, r.err); break;
    case 5: r = RunCli({"--cwd=nowhere", "x"}, ""); MC_CHECK(c, r.rc == 1 && r.out.empty() && !r.err.empty(), r.out, r.err); break;
    default: r = RunCli({"-c", "dir"}, ""); MC_CHECK(c, r.rc == 1 && r.out.empty() && !r.err.empty(), "checksum file is a directory: exit ", r.rc, r.out, r.err); break;
  }
  c.state(k);
}

// Environment answers: at every read of the digested file, a short read or an I/O error.
MC_SECTION_D(read_faults, 3) {
  const Alg& a = kAlgs[std::array<int, 3>{3, 0, 16}[c.choose(3)]];
  static const char* kFiles[] = {"abc", "big", "n65536", "empty"};
  const std::string f = kFiles[c.choose(4)];
  const int mode = c.choose(2);  // compute, check
  const std::string home = Scratch();
  const std::string content = *Content(f, "");
  int deviations = mc::Tier(2, 3);
  int errors = 0;
  std::string trace;
  mc::Ctx* cc = &c;
  const std::string line = HexDigest(a, content) + "  " + f + "\n";
  const std::string empty_line = HexDigest(a, "") + "  " + f + "\n";
  const bool against_empty = mode == 1 && c.flip();
  fault::g_answer = [&](char kind, int fd, size_t n) -> long {
    if (kind != 'r' || !fault::IsScratch(fd, home)) return -1;
    if (deviations == 0 || errors) return -1;
    const int what = cc->choose(4);
    if (what == 0) return -1;
    --deviations;
    trace += mc::Cat(" read(", n, ")=", what == 1 ? "1 byte" : what == 2 ? "EIO" : "half");
    if (what == 2) {
      ++errors;
      return -EIO;
    }
    return what == 1 ? 1 : static_cast<long>(n / 2 + 1);
  };
  Result r;
  try {
    r = mode == 0 ? RunCli({"-a", a.name, f}, "") : RunCli({"-a", a.name, "-c", "-"}, against_empty ? empty_line : line);
  } catch (...) {
    fault::g_answer = nullptr;
    throw;
  }
  fault::g_answer = nullptr;
  c.step();
  c.detail(trace);
  if (errors == 0) {
    if (mode == 0) {
      MC_CHECK(c, r.out == line && r.rc == 0, f, trace, ": ", r.out, r.err);
    } else {
      const bool same = !against_empty || content.empty();
      MC_CHECK(c, r.out == f + (same ? ": OK\n" : ": FAILED\n") && r.rc == (same ? 0 : 1), f, trace, ": ", r.out, r.err);
    }
  } else {
    // A file that could not be read completely must not be reported as digested or verified.
    MC_CHECK(c, r.rc != 0, f, trace, ": exit 0, ", r.out, r.err);
    if (mode == 0) {
      MC_CHECK(c, r.out.empty() && r.err.find(f) != std::string::npos, f, trace, ": ", r.out, r.err);
    } else {
      MC_CHECK(c, r.out == f + ": FAILED open or read\n", f, trace, ": ", r.out, r.err);
    }
  }
  c.state(mc::Fnv(trace + r.out + f + a.name, mode));
  c.sample(mc::Cat(f, trace, " -> exit ", r.rc, " ", r.out));
}
