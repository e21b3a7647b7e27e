// The diff command, run in-process: its flags mean the options they name, its exit codes are those of diff; file headers.
#include "lib/mc.h"

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>

#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#define main diff_cli_main
#include "mbo/diff/diff_main.cc"
#undef main

namespace {
namespace dc {
using Opt = mbo::diff::DiffOptions;
using Alg = Opt::Algorithm;
using Fmt = Opt::OutputFormat;
using Use = Opt::FileHeaderUse;

struct Result {
  int rc = 0;
  std::string out, err;
};
Result RunCli(const std::vector<std::string>& args) {
  for (auto& [n, f] : absl::flags_internal::Registry()) f->ResetShim_();
  std::vector<std::string> store = {"diff"};
  store.insert(store.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  std::ostringstream out, err;
  auto* o = std::cout.rdbuf(out.rdbuf());
  auto* e = std::cerr.rdbuf(err.rdbuf());
  Result r;
  r.rc = diff_cli_main(static_cast<int>(store.size()), argv.data());
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  r.out = out.str();
  r.err = err.str();
  return r;
}
// The same in a process of its own, as a bad use might end it. Only the exit code is certain to arrive then.
Result RunForked(const std::vector<std::string>& args) {
  int fd[2];
  if (pipe(fd)) abort();
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    const Result r = RunCli(args);
    (void)!write(fd[1], r.out.data(), r.out.size());
    _exit(r.rc);
  }
  close(fd[1]);
  Result r;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) r.out.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  return r;
}

struct Pair {
  std::string l, r;
};
const std::vector<Pair> kPairs = {
    {"one\ntwo\nthree\nfour\nfive\nsix\nseven\neight\nnine\n", "one\ntwo\nTHREE\nfour\nfive\nsix\nseven\neight\nnine\n"},
    {"a  b\n\nfoo // c1\nBAR\nx \nk\nk\nend", "a b\nfoo // c2\nbar\nx\n k\nk\n\n\nend\n"},
    {"a\nb\nc\nk1\nk2\nk3\nk4\nk5\nk6\nfoo1\nfoo2\nz // q\n", "b\nc\nd\nk1\nk2\nk3\nk4\nk5\nk6\nbar1\nfoo2x\n'z // q'\n"},
    {"same\n", "same\n"},
    {"", "foo\n\nbar // foo\n"},
    {"gone\nfoo\n", ""},
    {"a\nx\nc\nabcabba\nd\n", "c\nx\na\nb\nd\n"},
    {"ab\n\n", "a b\n"},
};
struct Setting {
  std::string key, value;
};
const std::vector<Setting> kSettings = {
    {"", ""},
    {"context", "0"}, {"context", "1"}, {"context", "3"}, {"context", "9"}, {"context", "18446744073709551615"},
    {"file_header_use", "both"}, {"file_header_use", "left"}, {"file_header_use", "none"}, {"file_header_use", "right"},
    {"ignore_all_space", "true"}, {"ignore_case", "true"}, {"ignore_consecutive_space", "true"}, {"ignore_blank_lines", "true"},
    {"ignore_matching_chunks", "false"}, {"ignore_matching_lines", "foo.*|"}, {"ignore_matching_lines", ".*[a-c].*"}, {"ignore_trailing_space", "true"},
    {"ignore_missing_final_newline", "true"}, {"max_lines", "0"}, {"max_lines", "1"}, {"max_lines", "3"}, {"minimal", "true"},
    {"regex_replace_lhs", "/[0-9]/N/"}, {"regex_replace_rhs", "|[0-9]||"}, {"regex_replace_rhs", "#bar#foo#"},
    {"show_chunk_headers", "false"}, {"show_chunk_headers", "true"}, {"skip_left_deletions", "true"}, {"skip_time", "true"},
    {"width", "20"}, {"width", "0"}, {"width", "131"}, {"strip_comments", "//"}, {"strip_parsed_comments", "false"}, {"strip_parsed_comments", "true"},
    {"strip_file_header_prefix", "lh"}, {"strip_file_header_prefix", "[lr]h"}, {"strip_file_header_prefix", "none"},
    {"ignore_case", "false"}, {"minimal", "false"}, {"context", "2"},
};
const char* kAlgs[] = {"myers", "naive", "direct", "unified", ""};
const char* kFmts[] = {"unified", "context", "normal", "side-by-side", ""};

using Flags = std::map<std::string, std::string>;
std::string Get(const Flags& f, const std::string& key, const std::string& def) {
  const auto it = f.find(key);
  return it == f.end() ? def : it->second;
}
size_t Num(const std::string& s) { return std::stoull(s); }

absl::Time Stamp(int side) { return absl::FromUnixSeconds(side ? 1'700'000'001 : 1'234'567'890) + absl::Milliseconds(side ? 250 : 500); }
std::string FirstLines(const std::string& s, size_t n) {
  if (n == 0) return s;
  size_t pos = 0;
  while (n-- > 0 && pos < s.size()) {
    const size_t e = s.find('\n', pos);
    pos = e == std::string::npos ? s.size() : e + 1;
  }
  return s.substr(0, pos);
}

// What the flags ask for, from the library.
std::string Want(mc::Ctx& c, const Flags& f, const Pair& texts, const std::string& ln, const std::string& rn) {
  const std::string alg = Get(f, "algorithm", "myers"), fmt = Get(f, "format", "unified"), use = Get(f, "file_header_use", "both");
  const bool direct = alg == "direct", normal = fmt == "normal", side = fmt == "side-by-side";
  const size_t no_limit = 1'000'000'000;
  const auto replace = [&](const std::string& key) -> std::optional<Opt::RegexReplace> {
    const std::string v = Get(f, key, "");
    if (v.empty()) return std::nullopt;
    const size_t a = v.find(v[0], 1), b = v.find(v[0], a + 1);
    return Opt::RegexReplace{.regex = std::make_unique<RE2>(v.substr(1, a - 1)), .replace = v.substr(a + 1, b - a - 1)};
  };
  const auto on = [&](const std::string& key, bool def) { return Get(f, key, def ? "true" : "false") == "true"; };
  const std::string com = Get(f, "strip_comments", "");
  const std::string match = Get(f, "ignore_matching_lines", "");
  const Opt opt{
      .algorithm = direct ? Alg::kDirect : alg == "naive" ? Alg::kNaive : Alg::kMyers,
      .output_format = normal ? Fmt::kNormal : side ? Fmt::kSideBySide : fmt == "context" ? Fmt::kContext : Fmt::kUnified,
      .context_size = f.contains("context") ? Num(f.at("context")) : side ? no_limit : direct || normal ? 0 : 3,
      .side_by_side_width = Num(Get(f, "width", "130")),
      .file_header_use = use == "both" ? Use::kBoth : use == "left" ? Use::kLeft : use == "right" ? Use::kRight : Use::kNone,
      .ignore_blank_lines = on("ignore_blank_lines", false),
      .ignore_case = on("ignore_case", false),
      .ignore_matching_chunks = on("ignore_matching_chunks", true),
      .ignore_all_space = on("ignore_all_space", false),
      .ignore_consecutive_space = on("ignore_consecutive_space", false),
      .ignore_trailing_space = on("ignore_trailing_space", false),
      .ignore_missing_final_newline = on("ignore_missing_final_newline", false),
      .minimal = on("minimal", false),
      .show_chunk_headers = on("show_chunk_headers", !direct),
      .skip_left_deletions = on("skip_left_deletions", false),
      .ignore_matching_lines = match.empty() ? std::optional<RE2>() : std::optional<RE2>(match),
      .strip_comments = com.empty() ? Opt::StripCommentOptions(Opt::NoCommentStripping{})
                        : on("strip_parsed_comments", true)
                            ? Opt::StripCommentOptions(mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_str = com, .remove_quotes = false}})
                            : Opt::StripCommentOptions(mbo::strings::StripCommentArgs{.comment_start = com}),
      .regex_replace_lhs = replace("regex_replace_lhs"),
      .regex_replace_rhs = replace("regex_replace_rhs"),
      .strip_file_header_prefix = Get(f, "strip_file_header_prefix", ""),
  };
  const size_t max = Num(Get(f, "max_lines", "0"));
  const bool skip = on("skip_time", false);
  const mbo::file::Artefact l{.data = FirstLines(texts.l, max), .name = ln, .time = skip ? absl::UnixEpoch() : Stamp(0)};
  const mbo::file::Artefact r{.data = FirstLines(texts.r, max), .name = rn, .time = skip ? absl::UnixEpoch() : Stamp(1)};
  const auto res = mbo::diff::Diff::FileDiff(l, r, opt);
  MC_CHECK(c, res.ok(), "the library fails ", res.status().ToString());
  return *res;
}

void Prepare() {
  static const bool done = [] {
    const std::string dir = mc::Cat("diff_cli.", getpid());
    std::filesystem::create_directory(dir);
    if (chdir(dir.c_str())) abort();
    for (size_t i = 0; i < kPairs.size(); ++i) {
      for (int side = 0; side < 2; ++side) {
        const std::string name = mc::Cat(side ? "rhs" : "lhs", i);
        std::ofstream(name, std::ios::binary) << (side ? kPairs[i].r : kPairs[i].l);
        const timespec ts{.tv_sec = absl::ToUnixMillis(Stamp(side)) / 1000, .tv_nsec = absl::ToUnixMillis(Stamp(side)) % 1000 * 1'000'000};
        const timespec t[2] = {ts, ts};
        utimensat(AT_FDCWD, name.c_str(), t, 0);
      }
    }
    std::filesystem::create_directory("dir");
    return true;
  }();
  (void)done;
}

void Combined(mc::Ctx& c, int n) {
  Prepare();
  Flags f;
  std::vector<std::string> args;
  const std::string alg = kAlgs[c.choose(5)], fmt = kFmts[c.choose(5)];
  if (alg == "unified" && fmt != "unified" && !fmt.empty()) return;  // Refused, see below.
  if (!alg.empty()) f["algorithm"] = alg, args.push_back("--algorithm=" + alg);
  if (!fmt.empty()) f["format"] = fmt, args.push_back("--format=" + fmt);
  size_t last = 0;
  for (int i = 0; i < n; ++i) {
    const size_t s = c.choose(static_cast<int>(kSettings.size() - last)) + last;
    last = s;
    if (kSettings[s].key.empty()) continue;
    if (f.contains(kSettings[s].key)) return;
    f[kSettings[s].key] = kSettings[s].value;
    args.push_back("--" + kSettings[s].key + "=" + kSettings[s].value);
  }
  const size_t p = c.choose(static_cast<int>(kPairs.size()));
  args.push_back(mc::Cat("lhs", p));
  args.push_back(mc::Cat("rhs", p));
  std::string what = "diff";
  for (auto& a : args) what += " " + a;
  c.detail(what);
  const Result r = RunCli(args);
  c.step();
  const std::string want = Want(c, f, kPairs[p], mc::Cat("lhs", p), mc::Cat("rhs", p));
  c.state(want);
  MC_CHECK(c, r.out == want, what, ": shows\n", r.out, "\ninstead of\n", want);
  MC_CHECK(c, r.rc == (want.empty() ? 0 : 1), what, ": exits with ", r.rc, " for ", want.empty() ? "equal" : "different", " files");
  if (mc::Fnv(what) % 4001 == 0) c.sample(mc::Cat(what, " -> ", r.rc, " and ", r.out.size(), " bytes"));
}
}  // namespace dc
}  // namespace

MC_SECTION(flags) { dc::Combined(c, mc::Tier(3, 4)); }

MC_SECTION(trouble) {
  dc::Prepare();
  static const std::vector<std::string> kNames = {"lhs0", "rhs0", "missing", "dir", "", "lhs0/x", "lhs3"};
  static const std::vector<std::vector<std::string>> kBad = {
      {}, {"--algorithm=unified", "--format=normal"}, {"--algorithm=unified", "--format=context"}, {"--algorithm=unified", "--format=side-by-side"},
      {"--algorithm=foo"}, {"--algorithm="}, {"--algorithm=Myers"}, {"--format=foo"}, {"--format="}, {"--format=Unified"}, {"--format=side_by_side"},
      {"--file_header_use=foo"}, {"--file_header_use="}, {"--file_header_use=Both"}, {"--regex_replace_lhs=/"}, {"--regex_replace_lhs=/a/b"}, {"--regex_replace_rhs=/a/b/c"},
      {"--regex_replace_rhs=/a/b/c/d/"}, {"--regex_replace_rhs=a"}, {"--regex_replace_lhs=/(/b/"}, {"--regex_replace_rhs=/[/b/"}, {"--ignore_matching_lines=("}, {"--ignore_matching_lines=*a"}};
  const auto& bad = c.pick(kBad);
  const int num = c.choose(5);
  std::vector<std::string> args = bad, names;
  for (int i = 0; i < num; ++i) names.push_back(num <= 2 ? c.pick(kNames) : "lhs0");
  args.insert(args.end(), names.begin(), names.end());
  std::string what = "diff";
  for (auto& a : args) what += " '" + a + "'";
  c.detail(what);
  const dc::Result r = dc::RunForked(args);
  c.step();
  bool trouble = !bad.empty() || num != 2;
  for (auto& n : names) trouble |= n != "lhs0" && n != "rhs0" && n != "lhs3";
  if (trouble) {
    MC_CHECK(c, r.rc >= 2, what, ": exits with ", r.rc, ", which says that the files are ", r.rc ? "different" : "equal");
    MC_CHECK(c, r.out.empty(), what, ": shows ", r.out);
    if (bad.empty()) MC_CHECK(c, r.rc == 2, what, ": ends with ", r.rc, " for arguments that are not two readable files");
  } else {
    MC_CHECK(c, r.rc == (names[0] == names[1] ? 0 : 1), what, ": exits with ", r.rc);
  }
  c.state(what);
  if (mc::Fnv(what) % 101 == 0) c.sample(mc::Cat(what, " -> ", r.rc));
}

// The head lines of a diff name both files.
MC_SECTION(headers) {
  using namespace dc;
  static const std::vector<std::string> kNames = {"", "-", "a", "a/b.cc", "a/a/b.cc", "/a/b", "a b", "A/b", "x.a/b", "a.b", "b"};
  static const std::vector<std::string> kPrefix = {"", "a", "a/", "a/a/", "/", "b", "a/b.cc", "a/b.cc/", "A", ".*/", "a*", "(a/)?", "[ab]", "x|a/", "[^/]*/", "b.*?", "(A|/)"};
  static const std::vector<std::string> kTime = {"", "%F %H:%M:%E3S %z", "%Y", "t"};
  static const std::vector<std::string> kShown[2] = {{"", "2009-02-13 23:31:30.500 +0000", "2009", "t"}, {"", "2023-11-14 22:13:21.250 +0000", "2023", "t"}};
  const std::string n[2] = {c.pick(kNames), c.pick(kNames)};
  const std::string prefix = c.pick(kPrefix);
  const int t = c.choose(static_cast<int>(kTime.size()));
  const Alg alg = c.pick(std::vector<Alg>{Alg::kMyers, Alg::kNaive, Alg::kDirect});
  for (const Use use : {Use::kBoth, Use::kLeft, Use::kRight, Use::kNone}) {
    for (const Fmt fmt : {Fmt::kUnified, Fmt::kContext, Fmt::kNormal, Fmt::kSideBySide}) {
      for (const bool equal : {false, true}) {
        const Opt opt{.algorithm = alg, .output_format = fmt, .file_header_use = use, .strip_file_header_prefix = prefix, .time_format = kTime[t]};
        const Opt bare{.algorithm = alg, .output_format = fmt, .file_header_use = Use::kNone};
        const mbo::file::Artefact l{.data = "x\ny\n", .name = n[0], .time = Stamp(0)}, r{.data = equal ? "x\ny\n" : "x\nz\n", .name = n[1], .time = Stamp(1)};
        const auto got = mbo::diff::Diff::FileDiff(l, r, opt);
        const auto body = mbo::diff::Diff::FileDiff(l, r, bare);
        c.step();
        MC_CHECK(c, got.ok() && body.ok(), "FileDiff fails");
        const std::string what = mc::Cat("names ", mc::Quote(n[0]), " ", mc::Quote(n[1]), " strip ", mc::Quote(prefix), " time ", mc::Quote(kTime[t]), " use ", int(use), " format ", int(fmt));
        const auto name = [&](const std::string& s) -> std::string {
          if (s.empty()) return "-";
          if (prefix.find_first_of(".*?()[]|") == std::string::npos) return s.starts_with(prefix) ? s.substr(prefix.size()) : s;
          re2::StringPiece in(s);
          RE2::Consume(&in, prefix);
          return std::string(in.data(), in.size());
        };
        const auto show = [&](int side, int stamp) { return name(n[side]) + (kTime[t].empty() ? "" : " " + kShown[stamp][t]); };
        const int lhs = use == Use::kRight, rhs = use != Use::kLeft;
        std::vector<std::string> want;
        const bool head = !equal && use != Use::kNone && (fmt == Fmt::kUnified || fmt == Fmt::kContext);
        if (!head) {
          want.push_back(*body);
        } else {
          // Whose time is shown for a file whose name is not is not specified.
          for (const int ls : {0, 1}) {
            for (const int rs : {0, 1}) {
              if (use == Use::kBoth && (ls != 0 || rs != 1)) continue;
              want.push_back((fmt == Fmt::kUnified ? "--- " : "*** ") + show(lhs, ls) + "\n" + (fmt == Fmt::kUnified ? "+++ " : "--- ") + show(rhs, rs) + "\n" + *body);
            }
          }
        }
        MC_CHECK(c, std::find(want.begin(), want.end(), *got) != want.end(), what, ": shows\n", *got, "\ninstead of\n", want.back());
        MC_CHECK(c, body->empty() == equal, what, ": wrong body");
      }
    }
  }
  c.state(n[0] + "|" + n[1] + "|" + prefix);
}

// The named values of flags, and nothing else, are accepted.
MC_SECTION(names) {
  using namespace dc;
  static const std::vector<std::string> kNames = {"direct", "myers", "naive", "unified", "context", "normal", "side-by-side", "both", "left", "none", "right"};
  std::string s = c.pick(kNames);
  switch (c.choose(5)) {
    case 0: break;
    case 1: s.erase(c.choose(static_cast<int>(s.size())), 1); break;
    case 2: s[c.choose(static_cast<int>(s.size()))] = c.pick(std::vector<char>{'a', 'z', 'N', '\0', '-', '~'}); break;
    case 3: s.insert(c.choose(static_cast<int>(s.size()) + 1), 1, c.pick(std::vector<char>{'a', 'e', ' ', '\0', '-', '~'})); break;
    case 4: s = c.flip() ? "" : s.substr(0, 1); break;
  }
  c.step();
  c.state(s);
  const auto alg = Opt::ParseAlgorithmFlag(s);
  const auto want_alg = s == "direct"                    ? std::optional(Alg::kDirect)
                        : s == "naive"                   ? std::optional(Alg::kNaive)
                        : s == "myers" || s == "unified" ? std::optional(Alg::kMyers)
                                                         : std::nullopt;
  MC_CHECK(c, alg == want_alg, "algorithm ", mc::Quote(s));
  const auto fmt = Opt::ParseOutputFormatFlag(s);
  const auto want_fmt = s == "unified"        ? std::optional(Fmt::kUnified)
                        : s == "context"      ? std::optional(Fmt::kContext)
                        : s == "normal"       ? std::optional(Fmt::kNormal)
                        : s == "side-by-side" ? std::optional(Fmt::kSideBySide)
                                              : std::nullopt;
  MC_CHECK(c, fmt == want_fmt, "format ", mc::Quote(s));
  const auto use = Opt::ParseFileHeaderUse(s);
  const auto want_use = s == "both" ? std::optional(Use::kBoth) : s == "left" ? std::optional(Use::kLeft) : s == "right" ? std::optional(Use::kRight) : s == "none" ? std::optional(Use::kNone) : std::nullopt;
  MC_CHECK(c, use == want_use, "file header ", mc::Quote(s));
}

MC_SECTION(replace) {
  using namespace dc;
  const std::string abc = "/|ab1";
  std::string s;
  const int n = c.choose(mc::Tier(7, 9));
  for (int i = 0; i < n; ++i) s += abc[c.choose(5)];
  const auto seps = std::count(s.begin(), s.end(), s.empty() ? ' ' : s[0]);
  if (!s.empty() && (seps != 3 || s.back() != s[0])) return;  // Refused, see above.
  c.step();
  c.state(s);
  const auto r = Opt::ParseRegexReplaceFlag(s);
  MC_CHECK(c, r.has_value() == !s.empty(), mc::Quote(s), " is a replacement or not");
  if (s.empty()) return;
  const size_t mid = s.find(s[0], 1);
  MC_CHECK(c, r->regex && r->regex->pattern() == s.substr(1, mid - 1), mc::Quote(s), " has pattern ", r->regex ? r->regex->pattern() : "none");
  MC_CHECK(c, r->replace == s.substr(mid + 1, s.size() - mid - 2), mc::Quote(s), " has replacement ", r->replace);
}
