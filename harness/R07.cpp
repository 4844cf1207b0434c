// R07: bounded always/eventually.
#include "h.h"
#ifndef LAT
#define LAT 4
#endif
extern "C" void sx_main() {
  double lats[][6] = {{0.0, 1.0, 1.3, 3.0, 4.5, 5.0}, {2.0, 2.25, 4.0, 5.0, 9.0, 9.5}};
  times(lats);
  struct W { double a, b; bool integer; };
  static const W ws[] = {{0, 1, 0}, {0, 0.25, 0}, {0.5, 1.5, 0}, {0, 3, 1}, {1, 2, 1}, {1, 1, 1}, {0, 0, 1}, {2, INF, 0}, {0, 100, 0}, {0.3, 100, 0}, {5, 7, 0}, {0, 2, 1}, {2.5, 2.75, 0}, {1, 2.5, 0}, {0, 1.7, 0}, {3, 3, 1}, {100, 200, 1}};
  const int NW = sizeof ws / sizeof *ws;
  W w = ws[sx_choose("window", NW)];
  if (SCALE == 2 || !w.integer || w.a != w.b) { w.a *= TS; w.b *= TS; if (SCALE != 2 && SCALE) w.integer = 0; }   // equal bounds have to be integers
  uint64_t which = sx_choose("lattice", LATS);
  const double* lat = lats[which];
  uint64_t mask = 1 + sx_choose("mask", (1 << LAT) - 1);
  bool ev = sx_choose("eventually", 2);
  Pts p = subset("v", lat, LAT, mask);
  auto x = mk(p);
  Trace tr{{"x", x}};
  ast::Interval I = w.integer ? ast::Interval((unsigned long long)w.a, (unsigned long long)w.b) : ast::Interval(w.a, w.b);
  auto r = rob(ev ? Eventually(above("x"), I) : Always(above("x"), I), tr);
  sx_check((int)r->size() == p.n, "size");
  if ((int)r->size() != p.n) return;
  for (int i = 0; i < p.n; i++) {
    double lo = p.t[i] + w.a, hi = p.t[i] + w.b, e = ref_at(p, lo);
    auto take = [&](double v) { e = ev ? sx_max(e, v) : sx_min(e, v); };
    take(hi == INF ? p.v[p.n - 1] : ref_at(p, hi));
    for (int j = 0; j < p.n; j++) if (p.t[j] >= lo && p.t[j] <= hi) take(p.v[j]);
    auto s = r->at_idx(i);
    sx_check(s.time == p.t[i], "time");
    sx_check(near(s.value, e), "window-extremum");
    sx_obs_d("r", s.value);
  }
  sx_check(unchanged(*x, p), "untouched");
  sx_reach(ev ? "eventually" : "always");
}
