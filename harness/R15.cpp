// R15: time translation.
#include "h.h"
static Expr build(uint64_t k) {
  Expr x = above("x", 1.0), y = Predicate("y") <= 0.5 * VS;
  switch (k) {
    case 0: return x;
    case 1: return Not(y);
    case 2: return And({x, y});
    case 3: return Or({x, y, Predicate("x") < 3.0 * VS});
    case 4: return Always(x);
    case 5: return Eventually(y);
    case 6: return Always(x, win(0.5, 2.0));
    case 7: return Eventually(y, iwin(1, 3));
    case 8: return Until(x, y);
    case 9: return Const(true);
    case 10: return And({Const(false), x});
    case 11: return Always(Or({x, y}));
    case 12: return Eventually(Always(x, win(0.5, 1.0)), win(1.0, INF));
    case 13: return Eventually(y, win(0.0, 3.5));
    case 14: return Until(Not(x), And({x, y}));
    default: return Eventually(Const(false), win(0.5, 2.0));
  }
}
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}, {-0.5, 1, -1}}, ds[] = {0.5, -64.75, -4.0, 1000.25, -1.0};
  times(lat); slopes(sl); spans(ds);
  static const uint64_t masks[][2] = {{15, 15}, {11, 14}, {6, 15}, {13, 11}, {1, 15}};
  uint64_t m = sx_choose("masks", 5), w = sx_choose("slopes", SLOPES), k = sx_choose("formula", 16);
  double dt = ds[sx_choose("dt", DTS)];
  bool mixed = k == 2 || k == 3 || k == 11 || k == 14;
  Pts p, q;
  if (mixed) { p = ramp("x", lat, 4, masks[m][0], sl[w]); q = ramp("y", lat, 4, masks[m][1], sl[(w + 1) % 3]); }
  else if (w == 0) { p = subset("x", lat, 4, masks[m][0]); q = subset("y", lat, 4, masks[m][1]); }
  else return;
  Pts ps = p, qs = q;
  for (int i = 0; i < p.n; i++) ps.t[i] += dt;
  for (int i = 0; i < q.n; i++) qs.t[i] += dt;
  Trace tr{{"x", mk(p)}, {"y", mk(q)}}, sh{{"x", mk(ps)}, {"y", mk(qs)}};
  Expr f = build(k);
  auto a = rob(f, tr), b = rob(f, sh);
  sx_check(a->size() == b->size(), "size");
  if (a->size() != b->size()) return;
  for (size_t i = 0; i < a->size(); i++) {
    auto u = a->at_idx(i), v = b->at_idx(i);
    sx_check(near(u.time + dt, v.time, UNIT * TS), "time");
    sx_check(near(u.value, v.value, 1e-4 * VS) | same(u.value, v.value), "value");
  }
  // shifting with Signal::shift is the same translation
  Trace s2{{"x", tr.at("x")->shift(dt)}, {"y", tr.at("y")->shift(dt)}};
  auto c = rob(f, s2);
  sx_check(c->size() == a->size(), "shift-size");
  if (c->size() != a->size()) return;
  for (size_t i = 0; i < a->size(); i++) sx_check(near(c->at_idx(i).time, b->at_idx(i).time, UNIT * TS) & (near(c->at_idx(i).value, b->at_idx(i).value, 1e-4 * VS) | same(c->at_idx(i).value, b->at_idx(i).value)), "shift-value");
  sx_reach("translated");
}
