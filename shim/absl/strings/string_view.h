#ifndef VERIF_SHIM_ABSL_STRING_VIEW_H_
#define VERIF_SHIM_ABSL_STRING_VIEW_H_
#include <string_view>
#include "absl/base/attributes.h"
namespace absl {
using std::string_view;
inline string_view ClippedSubstr(string_view s, size_t pos, size_t n = string_view::npos) { return pos >= s.size() ? string_view() : s.substr(pos, n); }
constexpr string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); }
}
#endif
