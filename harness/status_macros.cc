// The status macros: all combinations of results at several call sites, in all kinds of surroundings.
#include <memory>
#include <tuple>
#include "lib/mc.h"
#include "mbo/status/status_macros.h"

namespace {
using absl::Status;
using absl::StatusOr;
using mbo::status::StatusBuilder;

std::string g_log;
int g_copies = 0;
struct Val {
  int v = 0;
  Val(int x = 0) : v(x) {}
  Val(const Val& o) : v(o.v) { ++g_copies; }
  Val(Val&& o) noexcept : v(o.v) { o.v = -1; }
  Val& operator=(const Val& o) { v = o.v; ++g_copies; return *this; }
  Val& operator=(Val&& o) noexcept { v = o.v; o.v = -1; return *this; }
};
Status Make(int k) {
  Status s = k == 0 ? absl::OkStatus() : k == 1 ? absl::NotFoundError("one") : absl::InternalError("two");
  if (k == 2) s.SetPayload("u", absl::Cord("p"));
  return s;
}
Status Call(char n, int k) { g_log += n; return Make(k); }
template <typename T>
StatusOr<T> CallOr(char n, int k, T v) { g_log += n; if (k) return Make(k); return StatusOr<T>(std::move(v)); }
const char* Text(const char* t) { g_log += t; return t; }

// Several calls in a row: the first error is returned, nothing after it is evaluated, nothing is evaluated twice.
template <typename R>
R Row(int form, int a, int b, int d) {
  if (form == 0) {
    MBO_RETURN_IF_ERROR(Call('a', a));
    MBO_RETURN_IF_ERROR(CallOr<int>('b', b, 1));
    MBO_RETURN_IF_ERROR(Call('c', d)) << Text("X");
  } else if (form == 1) {
    const Status sa = Call('a', a);
    MBO_RETURN_IF_ERROR(sa);
    StatusOr<std::unique_ptr<int>> sb = CallOr<std::unique_ptr<int>>('b', b, std::make_unique<int>(4));
    MBO_RETURN_IF_ERROR(std::move(sb)) << Text("Y") << Text("Z");
    Status sc = Call('c', d);
    MBO_RETURN_IF_ERROR(sc).SetPrepend() << Text("P") << StatusBuilder::Append << Text("Q");
  } else if (form == 2) {
    MBO_ASSIGN_OR_RETURN(const int x, CallOr<int>('a', a, 5));
    MBO_ASSIGN_OR_RETURN(auto y, CallOr<std::unique_ptr<int>>('b', b, std::make_unique<int>(6)));
    int z = 0;
    MBO_ASSIGN_OR_RETURN(z, CallOr<int>('c', d, 7));
    if (x != 5 || *y != 6 || z != 7) g_log += "!";
  } else if (form == 3) {
    MBO_MOVE_TO_OR_RETURN((CallOr<std::pair<int, int>>('a', a, {1, 2})), auto [p, q]);
    MBO_MOVE_TO_OR_RETURN((CallOr<std::tuple<int, std::string, Val>>('b', b, {3, "t", Val(4)})), const auto [r, s, t]);
    MBO_MOVE_TO_OR_RETURN(CallOr<Val>('c', d, Val(9)), Val w);
    if (p != 1 || q != 2 || r != 3 || s != "t" || t.v != 4 || w.v != 9) g_log += "!";
  } else if (form == 4) {
    // Without braces, in branches.
    if (a >= 0) MBO_RETURN_IF_ERROR(Call('a', a)); else g_log += "e";
    for (int i = 0; i < 1; ++i) MBO_RETURN_IF_ERROR(Call('b', b)) << Text("L");
    if (a < 0) g_log += "f"; else if (d >= 0) MBO_RETURN_IF_ERROR(Call('c', d)); else g_log += "g";
  } else if (form == 5) {
    // In a loop and a switch, both of which go on after success.
    for (int i = 0; i < 2; ++i) {
      MBO_RETURN_IF_ERROR(Call(i ? 'b' : 'a', i ? b : a)).SetPayload("k", "w");
      if (i == 0) continue;
      break;
    }
    switch (d) { case 0: case 1: case 2: MBO_RETURN_IF_ERROR(Call('c', d)); break; default: g_log += "d"; }
  } else {
    // With names that macros like to use.
    const int k = a;
    const char* const var = "V";
    const char* const result = "R";
    const char* const status = "S";
    MBO_RETURN_IF_ERROR(Call(var[0] == 'V' ? 'a' : '?', k)) << var << result << status;
    const int var_or = b;
    MBO_ASSIGN_OR_RETURN(const int res, CallOr<int>('b', var_or, 3));
    const int expr = d;
    MBO_RETURN_IF_ERROR(Call(res == 3 ? 'c' : '?', expr)) << var;
  }
  g_log += "$";
  if constexpr (std::same_as<R, Status>) return absl::OkStatus(); else return typename R::value_type();
}
MC_SECTION(row) {
  const int form = c.choose(7), a = c.choose(3), b = c.choose(3), d = c.choose(3), kind = c.choose(3);
  g_log.clear();
  g_copies = 0;
  Status got;
  if (kind == 0) got = Row<Status>(form, a, b, d);
  else if (kind == 1) got = Row<StatusOr<int>>(form, a, b, d).status();
  else got = Row<StatusOr<std::unique_ptr<Val>>>(form, a, b, d).status();
  const int at = a ? 0 : b ? 1 : d ? 2 : 3;
  const int k = std::array{a, b, d, 0}[at];
  std::string msg = k == 0 ? "" : k == 1 ? "one" : "two", log = std::string("abc").substr(0, at + 1);
  std::string pre, post;
  if (form == 0 && at == 2) post = "X";
  if (form == 1 && at == 1) post = "YZ";
  if (form == 1 && at == 2) { pre = "P"; post = "Q"; }
  if (form == 4 && at == 1) post = "L";
  if (form == 6 && at == 0) post = "VRS";
  if (form == 6 && at == 2) post = "V";
  if (form != 6) log += pre + post;
  if (at == 3) log += "$";
  Status want = Make(k);
  if (!want.ok()) {
    Status w(want.code(), pre + msg + post);
    if (k == 2) w.SetPayload("u", absl::Cord("p"));
    if (form == 5 && at < 2) w.SetPayload("k", absl::Cord("w"));
    want = w;
  }
  MC_CHECK(c, got == want, "form ", form, ": ", got.ToString(), " want ", want.ToString());
  MC_CHECK(c, g_log == log, "form ", form, " evaluated ", g_log, " want ", log);
  MC_CHECK(c, g_copies == 0, "a value was copied");
  c.step();
  c.state(got.ToString() + g_log);
}
// The value arrives unchanged, moved from temporaries, and the source stays as it was when it is not to be moved.
MC_SECTION(values) {
  const int k = c.choose(3), v = c.choose(5), how = c.choose(9);
  const StatusOr<Val> kept = k ? StatusOr<Val>(Make(k)) : StatusOr<Val>(Val(v));
  StatusOr<Val> open = kept;  // Changes only if the expression hands it over.
  struct Holder { StatusOr<Val> m; StatusOr<Val>& Get() { return m; } } holder{kept};
  g_copies = 0;
  Val out(77);
  const auto run = [&]() -> Status {
    switch (how) {
      case 0: { MBO_ASSIGN_OR_RETURN(out, CallOr<Val>('a', k, Val(v))); break; }
      case 1: { MBO_ASSIGN_OR_RETURN(Val x, CallOr<Val>('a', k, Val(v))); out.v = x.v; break; }
      case 2: { MBO_MOVE_TO_OR_RETURN(CallOr<Val>('a', k, Val(v)), out); break; }
      case 3: { MBO_ASSIGN_OR_RETURN(out, kept); break; }
      case 4: { MBO_ASSIGN_OR_RETURN(out, open); break; }
      case 5: { MBO_MOVE_TO_OR_RETURN(open, Val x); out.v = x.v; break; }
      case 6: { MBO_ASSIGN_OR_RETURN(const Val x, holder.Get()); out.v = x.v; break; }
      case 7: { MBO_RETURN_IF_ERROR(open); MBO_MOVE_TO_OR_RETURN(holder.m, out); break; }
      default: { MBO_ASSIGN_OR_RETURN(out, std::move(open)); break; }
    }
    return absl::OkStatus();
  };
  const Status s = run();
  MC_CHECK(c, s == Make(k), "wrong status ", s.ToString());
  MC_CHECK(c, out.v == (k ? 77 : v), "value ", out.v, " for ", v);
  MC_CHECK(c, (how >= 3 && how < 8) || g_copies == 0, "copied ", g_copies);
  MC_CHECK(c, how == 8 || k || (open.ok() && open->v == v), "the variable that was named changed");
  MC_CHECK(c, k || (holder.m.ok() && holder.m->v == v), "the member that was named changed");
  MC_CHECK(c, !k || ((how == 8 || open.status() == Make(k)) && holder.m.status() == Make(k)), "the error that was named changed");
  MC_CHECK(c, k || kept->v == v, "the source changed");
}
}  // namespace
