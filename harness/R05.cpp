// R05: constants.
#include "h.h"
static void expect(const SignalPtr& r, const Pts& e, const char* size, const char* time, const char* value) {
  sx_check((int)r->size() == e.n, size);
  if ((int)r->size() != e.n) return;
  for (int i = 0; i < e.n; i++) { auto s = r->at_idx(i); sx_check(s.time == e.t[i], time); sx_check(near(s.value, e.v[i]) | same(s.value, e.v[i]), value); }
}
extern "C" void sx_main() {
  double lat[] = {-1.0, 0.0, 1.3, 4.0};
  times(lat);
  static const uint64_t masks[][2] = {{15, 0}, {6, 15}, {15, 6}, {3, 14}, {7, 8}, {2, 0}, {2, 2}, {10, 5}, {4, 15}};
  uint64_t m = sx_choose("spans", 11);
  if (m >= 9) { for (double& t : lat) t -= (m == 9 ? 16.0 : 4.0) * TS; m = m == 9 ? 1 : 4; }   // wholly before time zero, or up to it
  Pts p = subset("x", lat, 4, masks[m][0]), q = subset("y", lat, 4, masks[m][1]);
  auto x = mk(p);
  Trace tr{{"x", x}};
  double lo = p.t[0], hi = p.t[p.n - 1];
  if (q.n) { tr["y"] = mk(q); if (q.t[0] < lo) lo = q.t[0]; if (q.t[q.n - 1] > hi) hi = q.t[q.n - 1]; }
  bool b = sx_choose("constant", 2);
  double bv = b ? INF : -INF;
  Expr c = Const(b), px = above("x");
  uint64_t k = sx_choose("formula", 22);
  Pts cs; cs.add(lo, bv); if (hi > lo) cs.add(hi, bv);     // any signal that is bv over [lo, hi]
  auto constant = [&](const SignalPtr& r, double v) {       // constant over the whole trace span
    sx_check(!r->empty(), "constant-non-empty"); if (r->empty()) return;
    sx_check((r->begin_time() == lo) & (r->end_time() == hi), "constant-span");
    for (const auto& s : *r) sx_check(s.value == v, "constant-value");
  };
  Pts all; for (int i = 0; i < p.n; i++) all.add(p.t[i], 0);
  auto filled = [&](double v) { Pts e = all; for (int i = 0; i < e.n; i++) e.v[i] = v; return e; };
  Pts suffix_max = p; for (int i = p.n - 2; i >= 0; i--) suffix_max.v[i] = sx_max(p.v[i], suffix_max.v[i + 1]);
  auto id = [&](const Expr& f) { expect(rob(f, tr), p, "unit-size", "unit-time", "unit-value"); };
  auto fix = [&](const Expr& f, double v) { expect(rob(f, tr), filled(v), "zero-size", "zero-time", "zero-value"); };
  auto J = [&](bool conj, std::vector<Expr> v) { return conj ? And(std::move(v)) : Or(std::move(v)); };
  switch (k) {
    case 0: constant(rob(c, tr), bv); break;
    case 1: constant(rob(Not(c), tr), -bv); break;
    case 2: constant(rob(Always(c), tr), bv); break;
    case 3: constant(rob(Eventually(c), tr), bv); break;
    case 4: id(J(b, {px, c})); break;             // and-true / or-false
    case 5: id(J(b, {c, px})); break;
    case 6: fix(J(!b, {px, c}), bv); break;       // or-true / and-false
    case 7: fix(J(!b, {c, px}), bv); break;
    case 8: id(J(b, {c, px, c})); break;
    case 9: fix(J(!b, {px, c, px}), bv); break;
    case 10: id(J(b, {Not(Const(!b)), px})); break;
    case 11: constant(rob(Always(c, win(0.5, 2.0)), tr), bv); break;
    case 12: constant(rob(Eventually(c, iwin(1, 3)), tr), bv); break;
    case 13: expect(rob(Until(c, px), tr), b ? suffix_max : filled(-INF), "until-size", "until-time", "until-value"); break;
    case 14: expect(rob(Until(px, c), tr), b ? p : filled(-INF), "until-size", "until-time", "until-value"); break;
    case 15: id(b ? (px & c) : (px | c)); id(b ? (c & px) : (c | px)); break;
    case 16: for (int o = 0; o < 2; o++) {   // over x's span at least
      auto r = rob(b ? (o ? px | c : c | px) : (o ? px & c : c & px), tr);
      sx_check(!r->empty() && r->begin_time() <= p.t[0] && r->end_time() >= p.t[p.n - 1], "folded-span");
      for (const auto& s : *r) sx_check(s.value == bv, "folded-value");
    } break;
    case 17: constant(rob(Until(c, c), tr), bv); break;
    case 18: constant(rob(J(b, {c, c}), tr), bv); constant(rob(J(!b, {c, c, c}), tr), bv); break;   // constants alone
    case 19: constant(rob(J(b, {c, Const(!b)}), tr), -bv); constant(rob(J(!b, {Const(!b), c}), tr), bv); break;
    case 20: constant(rob(J(b, {J(!b, {c, c}), Not(Const(!b))}), tr), bv); break;
    case 21: id(J(b, {c, c, px, c})); break;
  }
  sx_check(unchanged(*x, p), "untouched");
  sx_reach(b ? "true" : "false");
}
