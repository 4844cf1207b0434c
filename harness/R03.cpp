// R03: conjunction and disjunction of two operands.
#include "h.h"
#ifndef LAT
#define LAT 4
#endif
extern "C" void sx_main() {
  uint64_t mx = 1 + sx_choose("mx", (1 << LAT) - 1), my = 1 + sx_choose("my", (1 << LAT) - 1);
  bool maximum = sx_choose("or", 2);
#ifdef CROSS
  double lat[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}, {0, 0, 2}, {-0.5, 1, -1}};
  times(lat); slopes(sl);
  Pts p = ramp("x", lat, LAT, mx, sl[sx_choose("sx", CROSS)]), q = ramp("y", lat, LAT, my, sl[sx_choose("sy", CROSS)]);
#else
  double lat[] = {0.0, 1.0, 1.3, 3.0, 3.7};
  times(lat);
  Pts p = subset("x", lat, LAT, mx), q = subset("y", lat, LAT, my);
#endif
  auto x = mk(p), y = mk(q);
  Trace tr{{"x", x}, {"y", y}};
  auto r = maximum ? rob(Or({above("x"), above("y")}), tr) : rob(And({above("x"), above("y")}), tr);
  Pts e = common(p, q, maximum);
  matches_at(*r, e, "span", "samples", "value-at-timestamps");
  sx_check(unchanged(*x, p) & unchanged(*y, q), "untouched");
  sx_reach(e.n ? maximum ? "or" : "and" : "disjoint");
#ifdef CROSS
  // between two timestamps: a sample on both lines where they cross, and every extra sample on the minimum (maximum)
  for (int i = 0; i + 1 < e.n; i++) {
    double t0 = e.t[i], t1 = e.t[i + 1], x0 = ref_at(p, t0), x1 = ref_at(p, t1), y0 = ref_at(q, t0), y1 = ref_at(q, t1);
    double dx = (x1 - x0) / (t1 - t0), dy = (y1 - y0) / (t1 - t0);
    int crossing = ((x0 - y0 > 1e-3 * VS) & (y1 - x1 > 1e-3 * VS)) | ((y0 - x0 > 1e-3 * VS) & (x1 - y1 > 1e-3 * VS));
    int inside = 0;
    for (const auto& s : *r) {
      if (!sx_fork((s.time > t0) & (s.time < t1))) continue;
      double xv = x0 + dx * (s.time - t0), yv = y0 + dy * (s.time - t0);
      sx_check(near(s.value, maximum ? sx_max(xv, yv) : sx_min(xv, yv)), "extra-sample-value");
      inside |= near(xv, yv);
    }
    if (sx_fork(crossing)) { sx_check(inside, "crossing-sample"); sx_reach("crossing"); }
  }
#endif
}
