// S04: begin_at / end_at.
#include "h.h"
#ifndef N
#define N 3
#endif
extern "C" void sx_main() {
  int n = (int)sx_choose("n", N + 1);
  Pts p;
  for (int i = 0; i < n; i++) { double tt = sx_double("t"), vv = sx_double("v"); p.add(tt, vv); }
  for (int i = 0; i < n; i++) sx_assume(p.t[i] == p.t[i]);
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  auto s = n ? mk(p) : std::make_shared<Signal>();
  double q = sx_double("q");
  sx_assume(q == q);
  int lo = 0, hi = 0;                       // samples before q; samples at or before q
  while (lo < n && sx_fork(p.t[lo] < q)) lo++;
  hi = lo; if (hi < n && sx_fork(p.t[hi] == q)) hi++;
  auto b = s->begin_at(q), e = s->end_at(q);
  sx_check(b - s->begin() == lo, "begin-at");
  sx_check(e - s->begin() == hi, "end-at");
  if (b - s->begin() != lo || e - s->begin() != hi) return;
  int i = lo;
  for (auto it = s->begin_at(q); it != s->end(); ++it, ++i) sx_check(same(it->time, p.t[i]) & same(it->value, p.v[i]), "from-s");
  sx_check(i == n, "from-s-count");
  i = 0;
  for (auto it = s->begin(); it != s->end_at(q); ++it, ++i) sx_check(same(it->time, p.t[i]) & same(it->value, p.v[i]), "to-t");
  sx_check(i == hi, "to-t-count");
  sx_reach(n == 0 ? "empty" : lo == n ? "after-end" : hi == 0 ? "before-begin" : lo != hi ? "at-sample" : "between");
  sx_obs_i("lo", lo); sx_obs_i("hi", hi);
}
