// R06: unbounded always/eventually.
#include "h.h"
#ifndef N
#define N 4
#endif
extern "C" void sx_main() {
  int n = 1 + (int)sx_choose("n", N);
  uint64_t k = sx_choose("form", 3);
  bool ev = sx_choose("eventually", 2);
  Pts p; for (int i = 0; i < n; i++) { double tt = sx_double("t"), vv = sx_double("v"); p.add(tt, vv); }
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  if (n == 1) sx_assume(p.t[0] == p.t[0]);
  for (int i = 0; i < n; i++) sx_assume(p.v[i] == p.v[i]);
  auto x = mk(p);
  Trace tr{{"x", x}};
  ast::Interval all(0.0, INF);
  Expr px = above("x");
  auto r = rob(k == 0 ? (ev ? Eventually(px) : Always(px)) : k == 1 ? (ev ? Eventually(px, all) : Always(px, all)) : (ev ? Eventually(px, ast::Interval()) : Always(px, ast::Interval())), tr);
  sx_check((int)r->size() == n, "size");
  if ((int)r->size() != n) return;
  double best = p.v[n - 1];
  for (int i = n - 1; i >= 0; i--) {
    best = ev ? sx_max(p.v[i], best) : sx_min(p.v[i], best);
    sx_check(r->at_idx(i).time == p.t[i], "time");
    sx_check(r->at_idx(i).value == best, "suffix-extremum");
  }
  sx_check(unchanged(*x, p), "untouched");
  sx_reach(ev ? "eventually" : "always");
}
