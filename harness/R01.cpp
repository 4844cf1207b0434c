// R01: robustness of predicates.
#include "h.h"
#ifndef N
#define N 3
#endif
extern "C" void sx_main() {
  int n = 1 + (int)sx_choose("n", N), op = (int)sx_choose("op", 4);
  Pts p; for (int i = 0; i < n; i++) { double tt = sx_double("t"), vv = sx_double("v"); p.add(tt, vv); }
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  if (n == 1) sx_assume(p.t[0] == p.t[0]);
  double c = sx_double("c");
  Pts q; q.add(0.5, 7.0); q.add(1.5, 8.0);
  auto x = mk(p);
  Trace tr{{"x", x}, {"y", mk(q)}, {"xx", mk(q)}};
  auto b = Predicate("x");
  auto f = op == 0 ? b > c : op == 1 ? b >= c : op == 2 ? b < c : b <= c;
  auto r = rob(f, tr);
  sx_check((int)r->size() == n, "size");
  if ((int)r->size() != n) return;
  for (int i = 0; i < n; i++) {
    auto s = r->at_idx(i);
    sx_check(s.time == p.t[i], "time");
    sx_check(same(s.value, op < 2 ? p.v[i] - c : c - p.v[i]), "margin");
  }
  sx_check(unchanged(*x, p), "untouched");
  sx_reach(op < 2 ? "above" : "below");
}
