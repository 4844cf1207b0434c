// S05: simplify.
#include "h.h"
#ifndef N
#define N 4
#endif
extern "C" void sx_main() {
  int n = (int)sx_choose("n", N + 1);
  double gaps[] = {1.0, 0.1, 3.0};
  spans(gaps);
  Pts p; double cur = sx_choose("start", 2) ? TO - 0.5 * TS : TO;
#ifdef SPECIAL
  for (int i = 0; i < n; i++) { uint64_t k = sx_choose("kind", 3); p.add(cur, k == 0 ? INF : k == 1 ? -INF : val("v")); cur += gaps[i % 3]; }
#else
  for (int i = 0; i < n; i++) { p.add(cur, val("v")); cur += gaps[i ? sx_choose("gap", 2) : 2]; }
#endif
  auto s = n ? mk(p) : std::make_shared<Signal>();
  auto z = s->simplify();
  sx_check(!!z, "non-null");
  if (!z) return;
  sx_check(z->empty() == (n == 0), "emptiness");
  sx_check(unchanged(*s, p), "untouched");
  if (n == 0) { sx_reach("empty"); return; }
  if (z->empty()) return;
  sx_check((int)z->size() <= n, "not-longer");
  sx_check(z->begin_time() == p.t[0] && z->end_time() == p.t[n - 1], "span");
  if (!(z->begin_time() == p.t[0] && z->end_time() == p.t[n - 1])) return;
  // subset of the samples
  int i = 0; bool kept[N + 1] = {};
  for (const auto& x : *z) {
    while (i < n && p.t[i] != x.time) i++;
    sx_check(i < n, "subset-time");
    if (i >= n) return;
    kept[i] = true;
    sx_check(same(x.value, p.v[i]), "subset-value");
  }
  for (i = 0; i < n; i++) sx_check(kept[i] | same(z->at(p.t[i]).value, p.v[i]) | near(z->at(p.t[i]).value, p.v[i]), "same-at-samples");
#ifndef SPECIAL
  for (i = 0; i + 1 < n; i++) {
    double m = p.t[i] + (p.t[i + 1] - p.t[i]) / 2;
    sx_check(near(z->at(m).value, ref_at(p, m)), "same-between");
  }
#endif
  for (i = 1; i + 1 < n; i++) if (!kept[i]) sx_reach("dropped"); else if (sx_fork((p.v[i - 1] == p.v[i]) & (p.v[i] == p.v[i + 1]))) sx_check(0, "constant-run-removed");
  sx_obs_i("size", (int64_t)z->size());
}
