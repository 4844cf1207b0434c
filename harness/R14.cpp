// R14: what cannot be evaluated raises an error wherever it occurs.
#include "h.h"
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.5, 4.0};
  double sl[] = {1, -2, 0.5}, sm[] = {-1, 3, 0};
  times(lat); slopes(sl); slopes(sm);
  static const uint64_t masks[] = {15, 9, 1, 6};
  Pts p = ramp("x", lat, 4, masks[sx_choose("mask", 4)], sl), q = ramp("y", lat, 4, masks[sx_choose("mask2", 2)], sm);
  Trace tr{{"x", mk(p)}, {"y", mk(q)}};
  Expr x = above("x"), y = above("y"), bad;
  uint64_t kind = sx_choose("kind", 14);
  switch (kind) {
    case 0: bad = above("z"); break;                       // absent signal
    case 1: bad = Predicate("X") < 1.0 * VS; break;
    case 2: bad = Predicate("") >= 1.0 * VS; break;
    case 3: bad = Until(x, y, win(0.0, 2.0)); break;   // bounded until
    case 4: bad = Until(x, y, win(1.0, INF)); break;
    case 5: bad = Until(x, y, iwin(0, 5)); break;
    case 6: bad = Until(y, x, iwin(2, 2)); break;
    case 7: bad = Always(x, iwin(3, 1)); break;   // inverted interval
    case 8: bad = Eventually(x, iwin(3, 1)); break;
    case 9: bad = Until(x, y, iwin(3, 1)); break;
    case 10: bad = Always(x, iwin(1, 0)); break;
    case 11: bad = Eventually(y, iwin(100, 99)); break;
    case 12: bad = Always(above("xx"), win(1.0, 2.0)); break;
    default: bad = Until(Const(true), y, win(0.0, 100.0)); break;
  }
  uint64_t where = sx_choose("where", 15);
  Expr f = bad;
  switch (where) {
    case 0: break;
    case 1: f = Not(bad); break;
    case 2: f = And({x, bad}); break;
    case 3: f = And({Const(false), x, bad}); break;
    case 4: f = Or({Const(true), bad}); break;
    case 5: f = Or({bad, y, x}); break;
    case 6: f = Always(bad); break;
    case 7: f = Eventually(bad, win(0.5, 1.0)); break;
    case 8: f = Until(bad, y); break;
    case 9: f = Until(x, bad); break;
    case 10: f = Always(Or({x, Not(Eventually(bad))}), iwin(1, 2)); break;
    case 11: f = And({And({x, y}), Or({y, bad})}); break;
    case 12: f = Until(Until(x, y), And({y, bad})); break;
    case 13: f = Implies(x, bad); break;
    case 14: f = Iff(bad, y); break;
  }
  bool threw = false;
  try { auto r = rob(f, tr); } catch (const std::exception&) { threw = true; }
  sx_check(threw, kind < 3 || kind == 12 ? "absent-signal" : (kind >= 3 && kind <= 6) || kind == 9 || kind == 13 ? "bounded-until" : "inverted-interval");
  // the same shapes evaluate when nothing is wrong with them
  if (kind == 0 && VALID) {
    tr["z"] = mk(q);
    bool ok = true;
    try { auto r = rob(f, tr); ok = !!r; } catch (const std::exception&) { ok = false; }
    sx_check(ok, "valid-evaluates"); sx_reach("valid");
  }
  sx_reach("rejected");
}
