// The real {fmt} implementation, for checks whose subject is printing.
#include <fmt/format-inl.h>
FMT_BEGIN_NAMESPACE
namespace detail {
template FMT_API auto dragonbox::to_decimal(float x) noexcept -> dragonbox::decimal_fp<float>;
template FMT_API auto dragonbox::to_decimal(double x) noexcept -> dragonbox::decimal_fp<double>;
template FMT_API auto thousands_sep_impl(locale_ref) -> thousands_sep_result<char>;
template FMT_API auto decimal_point_impl(locale_ref) -> char;
template FMT_API void buffer<char>::append(const char*, const char*);
template FMT_API void vformat_to(buffer<char>&, string_view, basic_format_args<FMT_BUFFER_CONTEXT(char)>, locale_ref);
}
FMT_END_NAMESPACE
// Numbers kept symbolic while printed (--replace): a marker followed by the bits of the double stands for its shortest decimal form,
// which tells all doubles except NaNs apart. With a format specification the number is one of a few values.
#include <cstring>
#include <iterator>
#include <string>
extern "C" {
int sx_fork(int); int sx_is_conc(double); double sx_pin(double); int sx_format_double(char*, unsigned long, const char*, int, double); void sx_unsupported_number(void);
fmt::appender sx_fmt_double(fmt::appender out, double v) {
  unsigned char b[9]; b[0] = 1; memcpy(b + 1, &v, 8);
  for (int i = 0; i < 9; i++) *out++ = (char)b[i];
  return out;
}
std::back_insert_iterator<std::string> sx_fmt_double_s(std::back_insert_iterator<std::string> out, double v) {
  unsigned char b[9]; b[0] = 1; memcpy(b + 1, &v, 8);
  for (int i = 0; i < 9; i++) *out++ = (char)b[i];
  return out;
}
fmt::appender sx_fmt_specs(fmt::appender out, double v, fmt::format_specs sp, fmt::detail::locale_ref) {
  static const double some[] = {0.1, 123456789.12345, 1e-7, 1e300, -2.5, 16777217.0};
  double d = v; bool got = sx_is_conc(v);
  for (double c : some) if (!got && sx_fork(v == c)) { d = c; got = true; }
  if (!got) d = sx_pin(v);
  const char* f = nullptr;
  switch (sp.type) {
    case fmt::presentation_type::none: case fmt::presentation_type::general_lower: f = "%.*g"; break;
    case fmt::presentation_type::fixed_lower: f = "%.*f"; break;
    case fmt::presentation_type::exp_lower: f = "%.*e"; break;
    default: sx_unsupported_number();
  }
  if (sp.width || sp.sign != fmt::sign::none) sx_unsupported_number();
  if (sp.type == fmt::presentation_type::none && sp.precision < 0) return sx_fmt_double(out, d);
  char b[1200]; int n = sx_format_double(b, sizeof b, f, sp.precision < 0 ? 6 : sp.precision, d);
  for (int i = 0; i < n; i++) *out++ = b[i];
  return out;
}
}
