// Formatting is not the subject of most checks: error messages become a fixed string.
#include <fmt/core.h>
namespace fmt { inline namespace v9 {
std::string vformat(string_view, format_args) { return std::string("<formatted>"); }
}}
