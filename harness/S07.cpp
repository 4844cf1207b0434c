// S07: shift and resize_shift.
#include "h.h"
#ifndef N
#define N 3
#endif
extern "C" void sx_main() {
#ifndef REAL
  int n = (int)sx_choose("n", N + 1);
  Pts p; for (int i = 0; i < n; i++) { double tt = sx_double("t"), vv = sx_double("v"); p.add(tt, vv); }
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  auto s = n ? mk(p) : std::make_shared<Signal>();
  double slope[N + 1]; for (int i = 0; i < n; i++) slope[i] = s->at_idx(i).derivative;
  double dt = sx_double("dt");
  auto r = s->shift(dt);
  sx_check((int)r->size() == n, "size");
  if ((int)r->size() != n) return;
  for (int i = 0; i < n; i++) {
    auto x = r->at_idx(i);
    sx_check(same(x.time, p.t[i] + dt), "times"); sx_check(same(x.value, p.v[i]), "values"); sx_check(same(x.derivative, slope[i]), "slopes");
    sx_check(same(s->at_idx(i).derivative, slope[i]), "slopes-untouched");
  }
  sx_check(unchanged(*s, p), "untouched");
  sx_reach(n ? "shifted" : "empty");
#else
  double lat[] = {0.0, 1.0, 1.3, 4.0};
  times(lat);
  uint64_t mask = 1 + sx_choose("mask", 15);
  Pts p = subset("v", lat, 4, mask);
  double q[] = {-2.0, 0.0, 0.25, 1.3, 2.5, 4.0, 6.0}, ds[] = {-1.5, 0.0, 2.0, 0.1};
  times(q); spans(ds);
  int a = (int)sx_choose("start", 7), b = (int)sx_choose("end", 7);
  if (a >= b) return;
  double fill = val("fill"), dt = ds[sx_choose("dt", 4)];
  auto s = mk(p);
  auto r = s->resize_shift(q[a], q[b], fill, dt), e = s->resize(q[a], q[b], fill)->shift(dt);
  sx_check(r->size() == e->size(), "size");
  if (r->size() != e->size()) return;
  for (size_t i = 0; i < r->size(); i++) {
    auto x = r->at_idx(i), y = e->at_idx(i);
    sx_check(near(x.time, y.time, UNIT * TS), "times"); sx_check(near(x.value, y.value), "values"); sx_check(near(x.derivative, y.derivative, STOL), "slopes");
  }
  sx_check(near(r->begin_time(), q[a] + dt, UNIT * TS) & near(r->end_time(), q[b] + dt, UNIT * TS), "span");
  sx_check(unchanged(*s, p), "untouched");
  sx_reach("resize-shifted");
#endif
}
