// R09: compositionality. rob(op(f,g), tr) == rob(op(p,q), tr + {p: rob(f), q: rob(g)}).
#include "h.h"
static Expr leaf(uint64_t k) {
  switch (k) {
    case 0: return Predicate("x") <= 1.0 * VS;
    case 1: return Not(above("x", 1.0));
    case 2: return And({above("x"), above("y")});
    case 3: return Always(above("x"));
    case 4: return Eventually(above("y"), win(0.5, 1.5));
    case 5: return Until(above("x"), above("y"));
    case 6: return Always(above("y"), iwin(1, 2));
    case 7: return Const(false);
    case 8: return Or({above("y"), Predicate("x") < 2.0 * VS});
    case 9: return Not(Eventually(Not(above("x")), win(1.0, INF)));
    default: return Eventually(And({above("x"), above("y")}));
  }
}
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}, {-0.5, 1, -1}};
  times(lat); slopes(sl);
  static const uint64_t masks[][2] = {{15, 15}, {11, 14}, {6, 15}, {13, 11}};
  uint64_t m = sx_choose("masks", MASKS), w = sx_choose("slopes", SLOPES);
  uint64_t op = sx_choose("op", 11), kf = sx_choose("f", 11);
  bool binary = op == 1 || op == 2 || op == 7 || op == 8;
#ifdef PAIRS
  uint64_t kg = binary ? sx_choose("g", 11) : 0;
#else
  uint64_t kg = binary ? (kf + 1 + sx_choose("g", 3) * 4) % 11 : 0;
#endif
  Pts px = ramp("x", lat, 4, masks[m][0], sl[w]), py = ramp("y", lat, 4, masks[m][1], sl[(w + 1) % 3]);
  Trace tr{{"x", mk(px)}, {"y", mk(py)}};
  Expr f = leaf(kf), g = leaf(kg);
  auto build = [&](const Expr& a, const Expr& b) -> Expr {
    switch (op) {
      case 0: return Not(a);
      case 1: return And({a, b});
      case 2: return Or({a, b});
      case 3: return Always(a);
      case 4: return Eventually(a);
      case 5: return Always(a, win(0.5, 2.0));
      case 6: return Eventually(a, iwin(1, 3));
      case 7: return Until(a, b);
      case 8: return And({a, b, a});
      case 9: return Not(Not(a));
      default: return Always(a, win(1.0, INF));
    }
  };
  auto rf = rob(f, tr);
  Trace tr2 = tr;
  tr2["p"] = rf;
  if (binary) tr2["q"] = rob(g, tr);
  auto direct = rob(build(f, g), tr);
  auto staged = rob(build(above("p"), binary ? above("q") : above("p")), tr2);
  sx_check(direct->size() == staged->size(), "size");
  if (direct->size() != staged->size()) return;
  for (size_t i = 0; i < direct->size(); i++) {
    auto a = direct->at_idx(i), b = staged->at_idx(i);
    sx_check((a.time == b.time) | near(a.time, b.time, UNIT * TS), "time");
    sx_check(same(a.value, b.value) | near(a.value, b.value, 1e-4 * VS), "value");
  }
  sx_reach(binary ? "binary" : "unary");
}
