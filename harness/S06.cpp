// S06: resize.
#include "h.h"
#ifndef N
#define N 3
#endif
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.3, 4.0};
  times(lat);
  uint64_t mask = sx_choose("mask", 16);                  // none: an empty signal is filled throughout
  if (__builtin_popcount((unsigned)mask) > N) return;
  Pts p = subset("v", lat, 4, mask);
  double q[] = {-2.0, -0.5, 0.0, 0.25, 1.0, 1.1, 1.3, 2.5, 3.0, 4.0, 4.5, 6.0};
  times(q);
  int a = (int)sx_choose("start", 12), b = (int)sx_choose("end", 12);
  if (a >= b) return;
  double st = q[a], en = q[b], fill = val("fill");
  auto s = mk(p);
  SignalPtr r; bool threw = false;
  try { r = s->resize(st, en, fill); } catch (const std::exception&) { threw = true; }
  sx_check(!threw, "no-error");
  if (threw) return;
  Pts e;
  auto at = [&](double t) { return !p.n || t < p.t[0] || t > p.t[p.n - 1] ? fill : ref_at(p, t); };
  e.add(st, at(st));
  for (int i = 0; i < p.n; i++) if (p.t[i] > st && p.t[i] < en) e.add(p.t[i], p.v[i]);
  e.add(en, at(en));
  sx_check((int)r->size() == e.n, "samples");
  if ((int)r->size() != e.n) return;
  for (int i = 0; i < e.n; i++) {
    auto x = r->at_idx(i);
    sx_check(x.time == e.t[i], "times"); sx_check(near(x.value, e.v[i]), "values");
    bool stored = false; for (int k = 0; k < p.n; k++) if (p.t[k] == e.t[i]) stored = true;
    if (stored) sx_check(x.value == e.v[i], "kept-exactly");
    sx_obs_d("v", x.value);
  }
  // resizing and shifting at once: the same samples, moved
  const double dt = sx_choose("forth", 2) ? 2.0 * TS : -0.5 * TS;
  SignalPtr m; threw = false;
  try { m = s->resize_shift(st, en, fill, dt); } catch (const std::exception&) { threw = true; }
  sx_check(!threw, "no-error-moved");
  if (threw) return;
  sx_check((int)m->size() == e.n, "samples-moved");
  if ((int)m->size() != e.n) return;
  for (int i = 0; i < e.n; i++) sx_check((m->at_idx(i).time == e.t[i] + dt) & near(m->at_idx(i).value, e.v[i]), "values-moved");
  sx_check(unchanged(*s, p), "untouched");
  sx_reach("resized");
  if (!p.n) return;
  if (en < p.t[0] || st > p.t[p.n - 1]) sx_reach("disjoint");
  if (st > p.t[0] && en < p.t[p.n - 1]) sx_reach("inside");
  if (st < p.t[0] && en > p.t[p.n - 1]) sx_reach("extends");
}
