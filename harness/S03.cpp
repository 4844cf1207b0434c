// S03: lookup by time.
#include "h.h"
#ifndef N
#define N 3
#endif
extern "C" void sx_main() {
  int n = (int)sx_choose("n", N + 1);
#ifdef REAL
  // concrete times, symbolic values: the looked-up value is the piecewise-linear one
  double lat[] = {-1.5, 0.0, 0.3, 2.0, 3.0, 7.0};
  times(lat);
  uint64_t mask = sx_choose("mask", 1 << 5);
  if (__builtin_popcount((unsigned)mask) != n) return;
  Pts p = subset("v", lat, 5, mask);
  auto s = n ? mk(p) : std::make_shared<Signal>();
  double q[] = {-2.0, -1.5, -0.7, 0.0, 0.1, 0.3, 1.0, 1.9, 2.0, 2.5, 3.0, 3.5};
  times(q);
  double t = q[sx_choose("q", 12)];
  bool in = n > 0 && t >= p.t[0] && t <= p.t[n - 1];
  bool threw = false; Sample r{};
  try { r = s->at(t); } catch (const std::exception&) { threw = true; }
  sx_check(threw == !in, "rejected-iff-outside");
  if (threw) { sx_reach("rejected"); return; }
  if (!in) return;
  sx_reach("found");
  sx_check(r.time == t, "time");
  int k = 0; while (k + 1 < n && p.t[k + 1] <= t) k++;
  if (p.t[k] == t) { sx_check(r.value == p.v[k], "stored-value"); sx_reach("hit"); }
  else {
    sx_reach("between");
    sx_check(near(r.value, ref_at(p, t)), "interpolated-value");
    sx_check(near(r.derivative, (p.v[k + 1] - p.v[k]) / (p.t[k + 1] - p.t[k]), STOL), "interpolated-slope");
  }
  sx_obs_d("v", r.value);
  sx_check(n == 0 || unchanged(*s, p), "untouched");
#else
  // every double for the times and the query: which lookups are rejected, and exact hits
  Pts p;
  for (int i = 0; i < n; i++) { double tt = sx_double("t"), vv = sx_double("v"); p.add(tt, vv); }
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  auto s = n ? mk(p) : std::make_shared<Signal>();
  double t = sx_double("q");
  bool in = n > 0 && sx_fork((t >= p.t[0]) & (t <= p.t[n - 1]));
  bool threw = false; Sample r{};
  try { r = s->at(t); } catch (const std::exception&) { threw = true; }
  sx_check(threw == !in, "rejected-iff-outside");
  if (threw) { sx_reach("rejected"); return; }
  if (!in) return;
  sx_reach("found");
  sx_check(r.time == t, "time");
  for (int i = 0; i < n; i++) if (sx_fork(p.t[i] == t)) { sx_check(same(r.value, p.v[i]), "stored-value"); sx_reach("hit"); }
#endif
}
