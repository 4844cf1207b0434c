// F02: the printed form of a sample is its time and value, that of a signal all its samples in order.
#include "h.h"
#include "signal_tl/fmt.hpp"
static std::string shownSample(double t, double v) { return "(" + fmt::to_string(t) + ", " + fmt::to_string(v) + ")"; }
static int sameText(const std::string& a, const std::string& b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
#ifdef FIXED
static double number(const char* n) { static const double C[] = {0.1, -2.5, 1e21, 1e-7, 123456789.125, 5e-324, 1.7976931348623157e308, 0.30000000000000004, -0.0, 3.0, INF, (double)0.1f, 1e17}; return C[sx_choose(n, 13)]; }
#else
static double number(const char* n) { double d = sx_double(n); sx_assume(d == d); return d; }
#endif
extern "C" void sx_main() {
#ifdef WIDE
  static const int SZ[] = {1, 2, 5, 16, 33, 100, 260};
  int n = SZ[sx_choose("size", 7)], at = (int)sx_choose("free", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
#else
  int n = (int)sx_choose("size", MAXN + 1), at = -1;
#endif
  auto s = std::make_shared<Signal>();
  std::string e = "[";
  for (int i = 0; i < n; i++) {
    double t = 0.25 * i, v = 7.0 - i;
    if (at < 0 || i == at) v = number("value");
    if (at < 0) { t = number("time"); if (i) sx_assume(t > s->end_time()); }
    Sample x{t, v, at < 0 ? 0.0 : 3.0};
    sx_check(sameText(fmt::format("{}", x), shownSample(t, v)), "sample");
    s->push_back(t, v);
    if (i) e += ", ";
    e += shownSample(t, v);
  }
  e += "]";
  std::string p = fmt::format("{}", *s);
  sx_check(sameText(p, e), "signal");
  sx_obs_i("n", (int64_t)s->size());
  sx_reach("printed");
}
