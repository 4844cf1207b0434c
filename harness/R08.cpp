// R08: unbounded until, sampled strong semantics.
#include "h.h"
#ifdef FPM
#define FPTOL 0
#else
#define FPTOL TOL
#endif
#ifndef LAT
#define LAT 3
#endif
extern "C" void sx_main() {
#ifdef FPM
  // shared timestamps, any non-NaN values (infinities included), any times
  int n = 1 + (int)sx_choose("n", FPM);
  Pts p, q;
  for (int i = 0; i < n; i++) { double t = sx_double("t"); double fv = sx_double("f"), gv = sx_double("g"); p.add(t, fv); q.add(t, gv); }
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  if (n == 1) sx_assume(p.t[0] == p.t[0]);
  for (int i = 0; i < n; i++) sx_assume((p.v[i] == p.v[i]) & (q.v[i] == q.v[i]));
  Pts f = p, g = q;
#else
  double lat[] = {0.0, 1.0, 1.3, 4.0};
  times(lat);
  Pts p = subset("f", lat, LAT, 1 + sx_choose("mf", (1 << LAT) - 1)), q = subset("g", lat, LAT, 1 + sx_choose("mg", (1 << LAT) - 1));
  Pts e = common(p, q, true, false), f = e, g = e;
  for (int i = 0; i < e.n; i++) { f.v[i] = ref_at(p, e.t[i]); g.v[i] = ref_at(q, e.t[i]); }
#endif
  auto x = mk(p), y = mk(q);
  Trace tr{{"f", x}, {"g", y}};
  uint64_t k = sx_choose("form", 3);
  auto r = rob(k == 0 ? Until(above("f"), above("g")) : k == 1 ? Until(above("f"), above("g"), ast::Interval(0.0, INF)) : Until(above("f"), above("g"), ast::Interval()), tr);
  sx_check((int)r->size() == f.n, "size");
  if ((int)r->size() != f.n) return;
  double g_max = -INF;
  for (int i = f.n - 1; i >= 0; i--) {
    double best = -INF, pre = INF;
    for (int j = i; j < f.n; j++) { pre = j == i ? f.v[j] : sx_min(pre, f.v[j]); double w = sx_min(g.v[j], pre); best = j == i ? w : sx_max(best, w); }
    auto s = r->at_idx(i);
    sx_check(s.time == f.t[i], "time");
#ifdef FPM
    sx_check(s.value == best, "strong-until");
#else
    sx_check(near(s.value, best), "strong-until");
#endif
    g_max = i == f.n - 1 ? g.v[i] : sx_max(g_max, g.v[i]);
    sx_check(s.value <= g_max + FPTOL, "never-above-the-awaited");
  }
  sx_check(unchanged(*x, p) & unchanged(*y, q), "untouched");
  sx_reach(f.n ? "until" : "disjoint");
}
