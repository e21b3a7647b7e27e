// StatusBuilder under all short sequences of its operations, in lvalue and rvalue form, against a plain model.
#include <map>
#include "lib/mc.h"
#include "mbo/status/status.h"
#include "mbo/status/status_builder.h"

namespace {
using absl::Status;
using mbo::status::StatusBuilder;

struct Model {
  bool ok = true;
  absl::StatusCode code = absl::StatusCode::kOk;
  std::string msg, text;
  enum { kDefault, kPrepend, kAppend } mode = kDefault;
  std::map<std::string, std::string> load;
  std::string Message() const { return ok ? "" : mode == kPrepend ? text + msg : mode == kAppend ? text : msg + text; }
};
std::map<std::string, std::string> Loads(const Status& s) {
  std::map<std::string, std::string> r;
  s.ForEachPayload([&](std::string_view k, const absl::Cord& v) { r[std::string(k)] = std::string(v); });
  return r;
}
void Same(mc::Ctx& c, const Model& m, const Status& s, const char* what) {
  MC_CHECK(c, s.ok() == m.ok && s.code() == m.code, what, ": code ", absl::StatusCodeToString(s.code()));
  MC_CHECK(c, s.message() == m.Message(), what, ": message ", mc::Quote(s.message()), " want ", mc::Quote(m.Message()));
  MC_CHECK(c, Loads(s) == m.load, what, ": payloads differ");
}
MC_SECTION_D(sequences, 4) {
  Model m;
  Status from;
  static const char* const texts[] = {"", "msg", "a\nb", "\xff%s"};
  if (c.choose(4) != 0) {
    m.ok = false;
    m.code = static_cast<absl::StatusCode>(1 + c.choose(16));
    // Not all sixteen codes need all sequences.
    const bool deep = m.code == absl::StatusCode::kNotFound;
    m.msg = texts[deep ? c.choose(4) : 1];
    from = Status(m.code, m.msg);
    if (!deep || c.flip()) { from.SetPayload("u1", absl::Cord("p1")); m.load["u1"] = "p1"; }
  }
  const bool deep = m.ok || m.code == absl::StatusCode::kNotFound;
  std::optional<StatusBuilder> b;
  absl::StatusOr<std::string> error_or = m.ok ? absl::StatusOr<std::string>("v") : absl::StatusOr<std::string>(from);
  switch (c.choose(5)) {
    case 0: b.emplace(from); break;
    case 1: b.emplace(Status(from)); break;
    case 2: b.emplace(error_or); break;
    case 3: b.emplace(absl::StatusOr<std::string>(error_or)); break;
    default: if (m.ok) b.emplace(); else b.emplace(std::move(from)); break;
  }
  int numbers = 0;
  std::string log;
  for (int i = deep ? mc::Tier(5, 6) : 2; i > 0; --i) {
    const int op = c.choose(9);
    if (op == 8) break;
    const bool rvalue = i % 2;
    auto stream = [&](const auto& v, const std::string& text) { if (rvalue) (void)(std::move(*b) << v); else *b << v; if (!m.ok) m.text += text; };
    switch (op) {
      case 0: switch (numbers++ % 5) { case 0: stream(42, "42"); break; case 1: stream(std::string("st"), "st"); break; case 2: stream('c', "c"); break; case 3: stream(std::string_view("v\0w", 3), std::string("v\0w", 3)); break; default: stream(1.5, "1.5"); } log += "<"; break;
      case 1: stream("lit", "lit"); log += "l"; break;
      case 2: stream("", ""); log += "e"; break;
      case 3: case 4:
        if (m.mode == Model::kDefault && !m.text.empty()) return;  // What becomes of text streamed before choosing its place is not specified.
        if (op == 3) { if (rvalue) (void)std::move(*b).SetAppend(); else b->SetAppend(); } else if (rvalue) (void)(std::move(*b) << StatusBuilder::Append); else *b << StatusBuilder::Append;
        if (m.mode != Model::kAppend && !m.ok) { m.text += m.msg; m.mode = Model::kAppend; }
        log += "A";
        break;
      case 5:
        if (m.mode == Model::kDefault && !m.text.empty()) return;
        if (rvalue) (void)std::move(*b).SetPrepend(); else b->SetPrepend();
        if (m.mode == Model::kDefault && !m.ok) m.mode = Model::kPrepend;
        log += "P";
        break;
      case 6: {
        const std::string key = "u" + std::to_string(numbers++ % 2 + 1), val = "new" + std::to_string(i);
        switch (i % 3) { case 0: if (rvalue) (void)std::move(*b).SetPayload(key, absl::Cord(val)); else b->SetPayload(key, absl::Cord(val)); break;
          case 1: if (rvalue) (void)std::move(*b).SetPayload(key, std::string_view(val)); else b->SetPayload(key, std::string_view(val)); break;
          default: if (rvalue) (void)std::move(*b).SetPayload(key, val); else b->SetPayload(key, val); }
        if (!m.ok) m.load[key] = val;
        log += "p";
        break;
      }
      default: {
        StatusBuilder other(std::move(*b));
        if (numbers++ % 2) { StatusBuilder third(Status(absl::StatusCode::kAborted, "other")); third << "x"; third = std::move(other); b.emplace(std::move(third)); } else { b.emplace(std::move(other)); }
        log += "m";
      }
    }
    c.step();
    MC_CHECK(c, b->ok() == m.ok, "ok() is wrong");
    Same(c, m, Status(*b), "lvalue");  // And it stays usable.
  }
  c.detail(log);
  Same(c, m, Status(*b), "again");
  auto result = [&]() -> Status { return std::move(*b); };
  Same(c, m, result(), "rvalue");
  c.state(mc::Cat(int(m.code), m.Message(), m.load.size()));
}
// Written in one expression and returned, as is usual.
MC_SECTION(expressions) {
  const Status e = c.flip() ? Status(absl::StatusCode::kInternal, "E") : absl::OkStatus();
  const auto f = [&](int i) -> Status {
    switch (i) {
      case 0: return StatusBuilder(e) << "a" << 1;
      case 1: return StatusBuilder(e).SetPrepend() << "a" << StatusBuilder::Append << "b";
      case 2: return StatusBuilder(e).SetAppend() << "a" << StatusBuilder::Append << "b";
      case 3: return StatusBuilder(e).SetPayload("u", "p") << "a";
      case 4: return StatusBuilder(e).SetPrepend().SetPayload("u", std::string("p")) << "a" << "b";
      default: return (StatusBuilder(e).SetPrepend() << "a").SetAppend() << "b" << "c";
    }
  };
  const char* want[] = {"Ea1", "aEb", "Eab", "Ea", "abE", "aEbc"};
  const int i = c.choose(6);
  const Status got = f(i);
  MC_CHECK(c, got.ok() == e.ok() && got.message() == (e.ok() ? "" : want[i]), "expression ", i, ": ", got.message());
  MC_CHECK(c, Loads(got).size() == (!e.ok() && (i == 3 || i == 4) ? 1 : 0), "payloads of expression ", i);
}
// Any status-like value as a status.
MC_SECTION(get_status) {
  Status s = c.flip() ? Status(absl::StatusCode::kInternal, "E") : absl::OkStatus();
  if (!s.ok() && c.flip()) s.SetPayload("u", absl::Cord("p"));
  const absl::StatusOr<std::string> so = s.ok() ? absl::StatusOr<std::string>("v") : absl::StatusOr<std::string>(s);
  absl::StatusOr<std::string> mut = so;
  MC_CHECK(c, mbo::status::GetStatus(s) == s && mbo::status::GetStatus(Status(s)) == s, "status changed");
  MC_CHECK(c, mbo::status::GetStatus(so) == s && mbo::status::GetStatus(mut) == s && mbo::status::GetStatus(absl::StatusOr<std::string>(so)) == s, "status of StatusOr changed");
  MC_CHECK(c, mbo::status::GetStatus(StatusBuilder(s)) == s && mbo::status::GetStatus(StatusBuilder(so)) == s, "status of builder changed");
  MC_CHECK(c, mut.ok() == s.ok() && (!mut.ok() || *mut == "v"), "asking changed the value");
}
}  // namespace
