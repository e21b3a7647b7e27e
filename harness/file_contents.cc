// File contents under every environment answer that fits into the bounds.
#include "lib/mc.h"
#include "lib/fault_io.h"
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include "mbo/file/artefact.h"
#include "mbo/file/file.h"

namespace {
namespace fs = std::filesystem;
using mbo::file::Artefact;
const std::string& Scratch() {
  static const std::string dir = [] {
    const std::string d = mc::Cat(fs::current_path().string(), "/file_", mc::G().replay ? 99 : mc::G().shard, "_", getpid());
    fs::create_directories(d);
    return d;
  }();
  return dir;
}
std::string P(const std::string& n) { return Scratch() + "/" + n; }
void Put(const std::string& n, std::string_view s) {
  const int fd = ::open(P(n).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  while (!s.empty()) {
    const ssize_t k = ::write(fd, s.data(), s.size());
    if (k <= 0) std::abort();
    s.remove_prefix(k);
  }
  ::close(fd);
}
std::optional<std::string> Raw(const std::string& n) {
  const int fd = ::open(P(n).c_str(), O_RDONLY);
  if (fd < 0) return std::nullopt;
  std::string r;
  char buf[65536];
  for (ssize_t k; (k = ::read(fd, buf, sizeof(buf))) > 0;) r.append(buf, k);
  ::close(fd);
  return r;
}
std::string Pattern(size_t n) {
  std::string m(n, '\0');
  for (size_t i = 0; i < n; ++i) m[i] = static_cast<char>((i * 2654435761u) >> 11);
  return m;
}
std::string Brief(const absl::StatusOr<std::string>& s) {
  return s.ok() ? mc::Cat(s->size(), " bytes ", mc::Quote(s->substr(0, 40))) : s.status().ToString();
}
const size_t kSizes[] = {0, 1, 5, 8190, 8191, 8192, 8193, 20000};

struct Answers {
  mc::Ctx& c;
  char kind;
  bool failed = false, early_eof = false;
  int left;
  size_t moved = 0, total;
  Answers(mc::Ctx& ctx, char k, size_t n, int budget) : c(ctx), kind(k), left(budget), total(n) {
    fault::g_answer = [this](char op, int fd, size_t want) -> long {
      if (op != kind || !fault::IsScratch(fd, Scratch())) return -1;
      if (left-- <= 0) {
        return -1;
      }
      c.step();
      switch (c.choose(op == 'r' ? 6 : 5)) {
        case 0: return -1;
        case 1: return 1;
        case 2: return want > 1 ? static_cast<long>(want / 2) : 1;
        case 3: return -EINTR;
        case 4: failed = true; return op == 'w' ? -ENOSPC : -EIO;
        default: early_eof = true; return 0;
      }
    };
  }
  ~Answers() { fault::g_answer = nullptr; }
};
}  // namespace

// Reading with interrupted, short, failing and ending reads.
MC_SECTION(read_faults) {
  const size_t n = kSizes[c.choose(std::size(kSizes))];
  const std::string data = Pattern(n);
  Put("in", data);
  absl::StatusOr<std::string> got = "";
  bool artefact = c.flip();
  std::string how;
  bool failed, early;
  {
    Answers a(c, 'r', n, mc::Tier(4, 6));
    if (artefact) {
      auto r = Artefact::Read(P("in"));
      if (r.ok()) got = r->data;
      else got = r.status();
    } else {
      got = mbo::file::GetContents(P("in"));
    }
    failed = a.failed, early = a.early_eof;
  }
  c.state(mc::Cat(n, got.ok(), failed, early));
  if (got.ok()) MC_CHECK(c, *got == data, "reading ", n, " bytes succeeds with ", Brief(got));
  if (!failed && !early) MC_CHECK(c, got.ok(), "reading ", n, " bytes fails though every byte could be read: ", Brief(got));
}

// Writing with interrupted, short and failing writes: success means that everything was written.
MC_SECTION(write_faults) {
  const size_t n = kSizes[c.choose(std::size(kSizes))];
  const std::string data = Pattern(n);
  const std::string old = c.flip() ? Pattern(30000) : "";
  Put("out", old);
  absl::Status st;
  bool failed;
  {
    Answers a(c, 'w', n, mc::Tier(5, 7));
    st = mbo::file::SetContents(P("out"), data);
    failed = a.failed;
  }
  const auto raw = Raw("out");
  c.state(mc::Cat(n, st.ok(), failed, raw->size()));
  if (st.ok()) MC_CHECK(c, raw == data, "writing ", n, " bytes succeeds but the file has ", raw->size(), " bytes");
  if (!failed) MC_CHECK(c, st.ok(), "writing ", n, " bytes fails: ", st.ToString());
}

// Histories of writes and reads of two files.
MC_SECTION(history) {
  static const std::vector<std::string> kContents = {"", "a", std::string("x\0y\r\n\n", 6), "line\nline\n", "a longer text than the others\nwithout end", Pattern(9000)};
  std::map<std::string, std::string> model;
  ::unlink(P("f0").c_str());
  ::unlink(P("f1").c_str());
  const int n = mc::Tier(4, 5);
  for (int i = 0; i < n; ++i) {
    const std::string f = c.flip() ? "f1" : "f0";
    const int op = c.choose(static_cast<int>(kContents.size()) + 1);
    c.step();
    if (op < static_cast<int>(kContents.size())) {
      const absl::Status st = mbo::file::SetContents(P(f), kContents[op]);
      MC_CHECK(c, st.ok(), "writing: ", st.ToString());
      model[f] = kContents[op];
    }
    for (const std::string g : {"f0", "f1"}) {
      const auto got = mbo::file::GetContents(P(g));
      auto it = model.find(g);
      MC_CHECK(c, got.ok() == (it != model.end()), "reading ", g, ": ", Brief(got));
      if (got.ok()) MC_CHECK(c, *got == it->second, "reading ", g, " gives ", Brief(got));
      else MC_CHECK(c, got.status().code() == absl::StatusCode::kNotFound || got.status().code() == absl::StatusCode::kUnknown, Brief(got));
      MC_CHECK(c, mbo::file::Readable(P(g)).ok() == (it != model.end()), "Readable(", g, ")");
    }
  }
}

// The first lines of every short text.
MC_SECTION(lines) {
  static const std::string_view kChars = std::string_view("a\n\r\0", 4);
  std::string s;
  const int n = mc::Tier(6, 7);
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(5);
    if (k == 0) break;
    s += kChars[k - 1];
  }
  const int big = c.choose(3);
  if (big == 1) s = Pattern(4095) + s;  // Around the buffer size.
  if (big == 2) s += std::string(1, '\xff') + "\n\xff";
  Put("lines", s);
  for (size_t max = 0; max < 9; ++max) {
    std::string want;
    size_t lines = 0;
    for (size_t i = 0; i < s.size() && lines < max; ++i) {
      want += s[i];
      lines += s[i] == '\n';
    }
    c.step();
    const auto got = mbo::file::GetMaxLines(P("lines"), max);
    MC_CHECK(c, got.ok() && *got == want, "the first ", max, " lines of ", mc::Quote(s.substr(0, 60)), " are ", Brief(got));
    const auto art = Artefact::ReadMaxLines(P("lines"), max);
    MC_CHECK(c, art.ok() && art->data == want && art->name == P("lines"), "the artefact of the first ", max, " lines of ", mc::Quote(s.substr(0, 60)));
  }
  c.state(s);
  const auto all = mbo::file::GetMaxLines(P("lines"), SIZE_MAX);
  MC_CHECK(c, all.ok() && *all == s, "all lines of ", mc::Quote(s.substr(0, 60)), " are ", Brief(all));
}

// What every function says about every kind of path.
MC_SECTION(kinds) {
  struct Kind {
    const char* name;
    bool readable, writable;
  };
  static const Kind kKinds[] = {{"file", true, true},    {"empty", true, true},  {"missing", false, true}, {"dir", false, false},      {"dangling", false, true},
                                {"loop", false, false},  {"file/x", false, false}, {"no/file", false, false}, {"link", true, true}, {"dirlink", false, false}};
  const int k = c.choose(static_cast<int>(std::size(kKinds)) + 2);
  const int op = c.choose(6);
  fs::remove_all(Scratch());
  fs::create_directories(P("dir/sub"));
  Put("file", "content\nmore");
  Put("empty", "");
  ::symlink("none", P("dangling").c_str());
  ::symlink("loop", P("loop").c_str());
  ::symlink("file", P("link").c_str());
  ::symlink("dir", P("dirlink").c_str());
  Kind kind = k < static_cast<int>(std::size(kKinds)) ? kKinds[k] : Kind{"", false, false};
  std::string path = P(kind.name);
  if (k == static_cast<int>(std::size(kKinds))) path = P(std::string(300, 'n'));
  if (k == static_cast<int>(std::size(kKinds)) + 1) path = P(std::string(5000, '/') + "file"), kind = {"", false, false};
  c.step();
  c.detail(mc::Cat("operation ", op, " on ", path.substr(0, 200)));
  const std::string what = mc::Cat(" on ", path.substr(path.size() < 100 ? Scratch().size() : 0, 60));
  const std::string content = std::string_view(kind.name) == "empty" ? "" : "content\nmore";
  switch (op) {
    case 0: {
      const absl::Status st = mbo::file::Readable(path);
      MC_CHECK(c, st.ok() == kind.readable, "Readable", what, ": ", st.ToString());
      break;
    }
    case 1: {
      const auto got = mbo::file::GetContents(path);
      MC_CHECK(c, got.ok() == kind.readable && (!got.ok() || *got == content), "GetContents", what, ": ", Brief(got));
      break;
    }
    case 2: {
      const auto got = mbo::file::GetMaxLines(path, 1);
      MC_CHECK(c, got.ok() == kind.readable && (!got.ok() || *got == content.substr(0, content.find('\n') + 1)), "GetMaxLines", what, ": ", Brief(got));
      break;
    }
    case 3: {
      const absl::Status st = mbo::file::SetContents(path, "new");
      MC_CHECK(c, st.ok() == kind.writable, "SetContents", what, ": ", st.ToString());
      if (st.ok()) MC_CHECK(c, Raw(kind.name) == "new", "SetContents", what, " did not write");
      break;
    }
    case 4: {
      const auto got = Artefact::Read(path, {.skip_time = c.flip()});
      MC_CHECK(c, got.ok() == kind.readable && (!got.ok() || (got->data == content && got->name == path)), "Artefact::Read", what);
      break;
    }
    default: {
      const auto got = Artefact::ReadMaxLines(path, 1, {.skip_time = c.flip()});
      MC_CHECK(c, got.ok() == kind.readable, "Artefact::ReadMaxLines", what);
      break;
    }
  }
  struct ::stat sb;
  MC_CHECK(c, ::stat(P("dir/sub").c_str(), &sb) == 0, "a directory vanished", what);
  if (op != 3) MC_CHECK(c, Raw("file") == "content\nmore", "the file changed", what);
}

// Modification times over the whole range, to the nanosecond.
MC_SECTION(times) {
  static const int64_t kSec[] = {0, 1, -1, 1000000000, 2147483647, 2147483648, 4294967296, 6437664000 /* 2174 */, 6437664001, -2147483648, 1700000000, 253402300799};
  static const int64_t kNs[] = {0, 1, 999999999, 500000000, 123456789};
  const int64_t sec = c.pick(kSec), ns = c.pick(kNs);
  Put("timed", "t");
  struct ::timespec ts[2] = {{sec, ns}, {sec, ns}};
  if (::utimensat(AT_FDCWD, P("timed").c_str(), ts, 0) != 0) return;
  struct ::stat sb;
  ::stat(P("timed").c_str(), &sb);
  if (sb.st_mtim.tv_sec != sec || sb.st_mtim.tv_nsec != ns) return;  // Not supported by the file system.
  c.step();
  c.state(mc::Cat(sec, ".", ns));
  const absl::Time want = absl::FromUnixSeconds(sec) + absl::Nanoseconds(ns);
  const auto got = mbo::file::GetMTime(P("timed"));
  MC_CHECK(c, got.ok() && *got == want, "GetMTime for ", sec, " s ", ns, " ns is off by ", got.ok() ? absl::ToInt64Nanoseconds(*got - want) : -1, " ns");
  const auto art = Artefact::Read(P("timed"));
  MC_CHECK(c, art.ok() && art->time == want && art->data == "t", "the time of the artefact for ", sec, " s ", ns, " ns");
  const auto skip = Artefact::Read(P("timed"), {.skip_time = true});
  MC_CHECK(c, skip.ok() && skip->time == absl::UnixEpoch(), "the skipped time");
  const auto lines = Artefact::ReadMaxLines(P("timed"), 1);
  const auto skip_lines = Artefact::ReadMaxLines(P("timed"), 1, {.skip_time = true});
  MC_CHECK(c, skip_lines.ok() && skip_lines->time == absl::UnixEpoch(), "the skipped time of the lines");
  MC_CHECK(c, lines.ok() && lines->time == want, "the time of the artefact lines for ", sec, " s ", ns, " ns");
  MC_CHECK(c, mbo::file::GetMTime(P("not there")).status().code() == absl::StatusCode::kNotFound, "GetMTime of a missing file");
}
