// R04: n-ary conjunction and disjunction.
#include "h.h"
#ifndef LAT
#define LAT 3
#endif
#ifndef MASKS
#define MASKS 5
#endif
#ifndef PATS
#define PATS 3
#endif
#ifndef K
#define K 3
#endif
#ifdef SHARED
// operands over the same signals: repeated, parallel and opposite bounds
struct Op { const char* x; ast::ComparisonOp op; double c; };
extern "C" void sx_main() {
  using C = ast::ComparisonOp;
  static const Op ops[] = {{"x", C::GT, 0}, {"x", C::GT, 2}, {"x", C::LE, 0}, {"y", C::GT, 0}, {"x", C::LT, 5}, {"y", C::GE, -3}};
  double lat[] = {0.0, 1.0, 3.5}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}};
  times(lat); slopes(sl);
  static const uint64_t masks[][2] = {{7, 7}, {5, 7}, {7, 6}};
  uint64_t m = sx_choose("masks", MASKS), i[3]; bool maximum = sx_choose("or", 2), three = sx_choose("three", 2), nots = sx_choose("not", 2);
  i[0] = sx_choose("first", OPS); i[1] = sx_choose("second", OPS); i[2] = three ? sx_choose("third", OPS) : 0;
  Pts p = ramp("x", lat, 3, masks[m][0], sl[0]), q = ramp("y", lat, 3, masks[m][1], sl[1]);
  Trace tr{{"x", mk(p)}, {"y", mk(q)}}; std::vector<Expr> fs; Pts e[3];
  int n = three ? 3 : 2; double lo = -1e300, hi = 1e300;
  for (int k = 0; k < n; k++) {
    const Op& o = ops[i[k]]; bool ge = o.op == C::GT || o.op == C::GE, neg = nots && k == 1; Pts& s = *o.x == 'x' ? p : q;
    Expr f = ast::Predicate{o.x, o.op, o.c * VS}; fs.push_back(neg ? Not(f) : f);
    for (int j = 0; j < s.n; j++) e[k].add(s.t[j], ge != neg ? s.v[j] - o.c * VS : o.c * VS - s.v[j]);
    if (e[k].t[0] > lo) lo = e[k].t[0]; if (e[k].t[e[k].n - 1] < hi) hi = e[k].t[e[k].n - 1];
  }
  auto r = rob(maximum ? Or(fs) : And(fs), tr);
  Pts w;
  for (double t : lat) {
    bool any = false; for (int k = 0; k < n; k++) for (int j = 0; j < e[k].n; j++) any |= e[k].t[j] == t;
    if (!any || t < lo || t > hi) continue;
    double v = ref_at(e[0], t); for (int k = 1; k < n; k++) v = maximum ? sx_max(v, ref_at(e[k], t)) : sx_min(v, ref_at(e[k], t));
    w.add(t, v);
  }
  matches_at(*r, w, "span", "samples", "extremum-of-all");
  sx_reach(maximum ? "or" : "and");
}
#else
extern "C" void sx_main() {
  // the level of every operand is symbolic, its slopes come from a table (two operands may share a pattern)
  double lat[] = {0.0, 1.0, 1.5, 3.5};
  double sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}, {0, 0, 2}, {0.5, -4, -1}, {-2, 0.25, 1}};
  times(lat); slopes(sl);
  static const uint64_t masks[][4] = {{15, 15, 15, 15}, {15, 9, 11, 13}, {14, 15, 7, 15}, {9, 6, 15, 11}, {3, 12, 15, 15}};
  static const char* nm[] = {"a", "b", "c", "d"};
  bool maximum = sx_choose("or", 2);
  uint64_t how = sx_choose("how", K == 3 ? 5 : 4);
  uint64_t ms = sx_choose("masks", MASKS), pat = sx_choose("pattern", PATS);
  Pts p[K]; Trace tr; std::vector<Expr> fs;
  for (int k = 0; k < K; k++) {
    uint64_t m = masks[ms][k] & ((1 << LAT) - 1);
    if (!m) m = 1;
    p[k] = ramp(nm[k], lat, LAT, m, sl[(pat + k * (pat / 5 + 1)) % 5]); tr[nm[k]] = mk(p[k]); fs.push_back(above(nm[k]));
  }
  auto J = [&](std::vector<Expr> v) { return maximum ? Or(std::move(v)) : And(std::move(v)); };
  Expr f = fs[0];
  if (how == 0) f = J(fs);
  else if (how == 1) { f = J({fs[0], fs[1]}); for (int k = 2; k < K; k++) f = J({f, fs[k]}); }
  else if (how == 2) { f = fs[K - 1]; for (int k = K - 2; k >= 0; k--) f = J({fs[k], f}); }
  else if (how == 3) { for (int k = 1; k < K; k++) f = maximum ? f | fs[k] : f & fs[k]; }
  else f = J({fs[2], fs[0], fs[1]});
  auto r = rob(f, tr);
  // all timestamps in the common span of all operands
  double lo = p[0].t[0], hi = p[0].t[p[0].n - 1];
  for (int k = 1; k < K; k++) { if (p[k].t[0] > lo) lo = p[k].t[0]; if (p[k].t[p[k].n - 1] < hi) hi = p[k].t[p[k].n - 1]; }
  Pts e;
  for (int i = 0; i < LAT; i++) {
    bool any = false;
    for (int k = 0; k < K; k++) for (int j = 0; j < p[k].n; j++) any |= p[k].t[j] == lat[i];
    if (!any || lat[i] < lo || lat[i] > hi) continue;
    double v = ref_at(p[0], lat[i]);
    for (int k = 1; k < K; k++) v = maximum ? sx_max(v, ref_at(p[k], lat[i])) : sx_min(v, ref_at(p[k], lat[i]));
    e.add(lat[i], v);
  }
  matches_at(*r, e, "span", "samples", "extremum-of-all");
  sx_reach(e.n ? maximum ? "or" : "and" : "disjoint");
}
#endif
