// R02: negation.
#include "h.h"
#ifndef N
#define N 3
#endif
static void neg(const SignalPtr& r, const SignalPtr& s, const char* size, const char* time, const char* value, double sign) {
  sx_check(r->size() == s->size(), size);
  if (r->size() != s->size()) return;
  for (size_t i = 0; i < r->size(); i++) {
    sx_check(r->at_idx(i).time == s->at_idx(i).time, time);
    sx_check(same(s->at_idx(i).value, sign * r->at_idx(i).value), value);
  }
}
extern "C" void sx_main() {
#ifdef FPM
  int n = 1 + (int)sx_choose("n", N);
  Pts p; for (int i = 0; i < n; i++) { double tt = sx_double("t"), vv = sx_double("v"); p.add(tt, vv); }
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  if (n == 1) sx_assume(p.t[0] == p.t[0]);
  for (int i = 0; i < n; i++) sx_assume(p.v[i] == p.v[i]);
  Trace tr{{"x", mk(p)}};
  uint64_t k = sx_choose("f", 5);
  Expr f = k == 0 ? Expr(above("x")) : k == 1 ? Expr(Predicate("x") <= 0.0) : k == 2 ? Always(above("x")) : k == 3 ? Eventually(above("x")) : Expr(Const(true));
#else
  double lat[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}, {0, 0, 2}};
  times(lat); slopes(sl);
  static const uint64_t mk2[][2] = {{15, 15}, {11, 14}, {6, 15}, {13, 6}, {1, 15}};
  uint64_t k = sx_choose("f", 5), m = sx_choose("m", 5), w = sx_choose("s", 3);
  Pts p, q;
  if (k < 2) { p = ramp("x", lat, 4, mk2[m][0], sl[w]); q = ramp("y", lat, 4, mk2[m][1], sl[(w + 1) % 3]); }
  else { p = subset("x", lat, 4, mk2[m][0]); q = subset("y", lat, 4, mk2[m][1]); }
  Trace tr{{"x", mk(p)}, {"y", mk(q)}};
  Expr f = k == 0 ? And({above("x"), above("y")}) : k == 1 ? Or({above("x"), above("y")}) : k == 2 ? Until(above("x"), above("y")) : k == 3 ? Always(above("x"), win(0.5, 1.5)) : Eventually(above("y"), iwin(1, 2));
#endif
  auto r = rob(f, tr);
  neg(r, rob(Not(f), tr), "size", "time", "value", -1.0);
  neg(r, rob(Not(Not(f)), tr), "size-twice", "time-twice", "value-twice", 1.0);
  neg(r, rob(~f, tr), "operator-size", "operator-time", "operator-value", -1.0);
  sx_reach("negated");
}
