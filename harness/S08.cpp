// S08: synchronize.
#include "h.h"
#ifndef LAT
#define LAT 4
#endif
#ifdef FPT
// symbolic timestamps
#ifndef N
#define N 2
#endif
extern "C" void sx_main() {
  int n = (int)sx_choose("n", N + 1), m = (int)sx_choose("m", N + 1);
  Pts p, q;
  for (int i = 0; i < n; i++) { double tt = sx_double("tx"), vv = sx_double("vx"); p.add(tt, vv); }
  for (int i = 0; i < m; i++) { double tt = sx_double("ty"), vv = sx_double("vy"); q.add(tt, vv); }
  for (int i = 0; i < n; i++) sx_assume(p.t[i] == p.t[i]);
  for (int i = 0; i < m; i++) sx_assume(q.t[i] == q.t[i]);
  for (int i = 1; i < n; i++) sx_assume(p.t[i] > p.t[i - 1]);
  for (int i = 1; i < m; i++) sx_assume(q.t[i] > q.t[i - 1]);
  auto x = n ? mk(p) : std::make_shared<Signal>(), y = m ? mk(q) : std::make_shared<Signal>();
  auto [a, b] = signal::synchronize(x, y);
  sx_check(a->size() == b->size(), "same-length");
  if (a->size() != b->size()) return;
  // expected timestamps, in order
  double et[2 * N + 1]; int src[2 * N + 1], e = 0;   // src: bit 0 = in x (index bits 8..), bit 1 = in y
  if (n && m) {
    int i = 0, j = 0;
    while (i < n || j < m) {
      int s; double t;
      if (j == m) { s = 1; t = p.t[i]; } else if (i == n) { s = 2; t = q.t[j]; }
      else if (sx_fork(p.t[i] == q.t[j])) { s = 3; t = p.t[i]; }
      else if (sx_fork(p.t[i] < q.t[j])) { s = 1; t = p.t[i]; } else { s = 2; t = q.t[j]; }
      bool in = sx_fork((t >= p.t[0]) & (t >= q.t[0]) & (t <= p.t[n - 1]) & (t <= q.t[m - 1]));
      if (in) { et[e] = t; src[e] = s | i << 8 | j << 16; e++; }
      if (s & 1) i++;
      if (s & 2) j++;
    }
  }
  sx_check((int)a->size() == e, "timestamps-count");
  if ((int)a->size() != e) return;
  sx_reach(e ? "overlap" : "disjoint");
  for (int k = 0; k < e; k++) {
    auto u = a->at_idx(k), v = b->at_idx(k);
    sx_check((u.time == et[k]) & (v.time == et[k]), "timestamps");
    if (src[k] & 1) sx_check(same(u.value, p.v[src[k] >> 8 & 255]), "own-x");
    if (src[k] & 2) sx_check(same(v.value, q.v[src[k] >> 16]), "own-y");
  }
  sx_check(unchanged(*x, p) & unchanged(*y, q), "untouched");
  if (m == 0) {                                       // a signal with itself
    auto [c, d] = signal::synchronize(x, x);
    sx_check((int)c->size() == n && (int)d->size() == n, "itself-size");
    if ((int)c->size() != n || (int)d->size() != n) return;
    for (int k = 0; k < n; k++) {
      auto u = c->at_idx(k), v = d->at_idx(k);
      sx_check((u.time == p.t[k]) & (v.time == p.t[k]) & same(u.value, p.v[k]) & same(v.value, p.v[k]), "itself");
    }
    sx_check(unchanged(*x, p), "untouched");
  }
}
#else
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.3, 3.0, 3.7, 6.0};
  times(lat);
  Pts p = subset("x", lat, LAT, sx_choose("mx", 1 << LAT)), q = subset("y", lat, LAT, sx_choose("my", 1 << LAT));
  auto x = p.n ? mk(p) : std::make_shared<Signal>(), y = q.n ? mk(q) : std::make_shared<Signal>();
  auto [a, b] = signal::synchronize(x, y);
  auto [c, d] = signal::synchronize(y, x);
  sx_check(a->size() == b->size(), "same-length");
  sx_check(c->size() == a->size() && d->size() == a->size(), "swap-length");
  if (a->size() != b->size() || c->size() != a->size() || d->size() != a->size()) return;
  Pts e, f;
  if (p.n && q.n) {
    double lo = p.t[0] > q.t[0] ? p.t[0] : q.t[0], hi = p.t[p.n - 1] < q.t[q.n - 1] ? p.t[p.n - 1] : q.t[q.n - 1];
    for (int i = 0; i < LAT; i++) {
      bool inx = false, iny = false;
      for (int k = 0; k < p.n; k++) inx |= p.t[k] == lat[i];
      for (int k = 0; k < q.n; k++) iny |= q.t[k] == lat[i];
      if ((inx || iny) && lat[i] >= lo && lat[i] <= hi) { e.add(lat[i], ref_at(p, lat[i])); f.add(lat[i], ref_at(q, lat[i])); if (inx != iny) sx_reach("interpolated"); }
    }
  }
  sx_check((int)a->size() == e.n, "timestamps-count");
  if ((int)a->size() != e.n) return;
  sx_reach(e.n ? "overlap" : "disjoint");
  for (int k = 0; k < e.n; k++) {
    auto u = a->at_idx(k), v = b->at_idx(k);
    sx_check(u.time == e.t[k] && v.time == e.t[k], "timestamps");
    sx_check(near(u.value, e.v[k]), "x-values"); sx_check(near(v.value, f.v[k]), "y-values");
    sx_check(near(c->at_idx(k).value, v.value) & near(d->at_idx(k).value, u.value) & (c->at_idx(k).time == v.time) & (d->at_idx(k).time == u.time), "swap");
    sx_obs_d("x", u.value); sx_obs_d("y", v.value);
  }
  sx_check((p.n == 0 || unchanged(*x, p)) & (q.n == 0 || unchanged(*y, q)), "untouched");
}
#endif
