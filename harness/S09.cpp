// S09: sample geometry.
#include "h.h"
extern "C" void sx_main() {
#ifdef FPM
  Sample a{sx_double("t"), sx_double("v"), sx_double("d")}, b{sx_double("t2"), sx_double("v2"), sx_double("d2")};
  Sample m = -a;
  sx_check(same(m.time, a.time) & same(m.value, -a.value) & same(m.derivative, -a.derivative), "negation");
  sx_assume((a.value == a.value) & (b.value == b.value));
  sx_check((a < b) == (a.value < b.value), "less"); sx_check((a > b) == (a.value > b.value), "greater");
  sx_check((a <= b) == (a.value <= b.value), "less-equal"); sx_check((a >= b) == (a.value >= b.value), "greater-equal");
  double q = sx_double("q"); if (q < a.time) { sx_check(a.area(q) == 0, "no-area"); sx_check(Signal(std::vector<Sample>{a}).area(q, 0) == 0, "signal-no-area"); }
  sx_reach("compared");
#else
  double ts[] = {-2.0, 0.0, 0.1, 3.0, 7.5}, ds[] = {-3.0, -0.3, 0.0, 0.7, 1.0, 40.0};
  times(ts); slopes(ds);
  Sample a{ts[sx_choose("t", 5)], val("v"), ds[sx_choose("d", 6)]};
  double q = ts[sx_choose("q", 5)];
  uint64_t what = sx_choose("what", 3);
  if (what == 0) {
    sx_check(near(a.interpolate(q), a.value + a.derivative * (q - a.time)), "interpolate");
    Signal s(std::vector<Sample>{a, Sample{a.time + TS, a.value + a.derivative * TS}});
    sx_check(near(s.interpolate(q, 0), a.value + a.derivative * (q - a.time), 1e-3 * VS), "signal-interpolate");
    sx_reach("interpolate");
  } else if (what == 1) {
    double e = q > a.time ? (a.value + (a.value + a.derivative * (q - a.time))) / 2 * (q - a.time) : 0;
    sx_check(near(a.area(q), e, TOL * TS), "area");
    Signal s(std::vector<Sample>{a, Sample{a.time + TS, a.value + a.derivative * TS}});
    sx_check(near(s.area(q, 0), e, 1e-2 * VS * TS), "signal-area");
    sx_reach(q > a.time ? "area" : "no-area");
  } else {
    Sample b{q, val("v2"), ds[sx_choose("d2", 6)]};
    if (b.derivative == a.derivative) return;
    double c = a.time_intersect(b);
    sx_check(near(a.value + a.derivative * (c - a.time), b.value + b.derivative * (c - b.time), 1e-4 * VS), "intersect");
    sx_check(near(c, b.time_intersect(a), UNIT * TS), "intersect-symmetric");
    if (a.derivative == 0) { Signal s(std::vector<Sample>{a}); sx_check(near(s.time_intersect(b, 0), c, UNIT * TS), "signal-intersect"); }
    sx_obs_d("c", c);
    sx_reach("intersect");
  }
#endif
}
