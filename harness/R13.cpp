// R13: conjunctions/disjunctions of predicates always evaluate; crossings are computed with rounding.
#include "h.h"
#ifndef N
#define N 2
#endif
#ifndef LAT
#define LAT 3
#endif
#ifdef STEEP
// any finite values on timestamps as close together and as far apart as doubles allow; formulas without crossings
extern "C" void sx_main() {
  static const double ts[][3] = {{0.0, 1.0, 2.0}, {0.0, 5e-324, 1e-323}, {-1.7976931348623157e308, 0.0, 1.7976931348623157e308}, {1e6, 1000000.0000000001, 1000000.0000000002}, {0.0, 1e-310, 1.0}, {-1e-300, 1e-300, 1e300}};
  const double* t = ts[sx_choose("times", 6)];
  Pts p; for (int i = 0; i < N; i++) { double a = sx_double("x"); sx_assume(a - a == 0); p.add(t[i], a); }
  SignalPtr x; bool threw = false;
  try { x = mk(p); } catch (const std::exception&) { threw = true; }
  sx_check(!threw, "trace-built"); if (threw) return;
  Trace tr{{"x", x}};
  double c = sx_double("c"); sx_assume(c - c == 0);
  Expr a = Predicate("x") > c, b = Predicate("x") <= c, f = a; SignalPtr r; bool all = true;
  switch (sx_choose("formula", 9)) {
    case 0: break;
    case 1: f = Not(b); break;
    case 2: f = Always(a); break;
    case 3: f = Eventually(b); break;
    case 4: f = Until(a, b); break;
    case 5: f = And({a, Const(true)}); break;
    case 6: f = Or({Const(false), b}); break;
    case 7: f = Not(Until(Not(a), a)); break;
    default: f = Always(Eventually(Not(Not(b)))); break;
  }
  try { r = rob(f, tr); } catch (const std::exception&) { threw = true; }
  sx_check(!threw, "no-error"); if (threw) return;
  sx_check((int)r->size() == N, "instants"); if ((int)r->size() != N) return;
  for (int i = 0; i < N; i++) all = all && r->at_idx(i).time == t[i];
  sx_check(all, "timestamps");
  sx_reach("evaluated");
}
#else
extern "C" void sx_main() {
#ifdef FPX
  // two samples each on the same timestamps, any finite doubles: IEEE semantics
  Pts p, q;
  double t0 = 0.0, t1 = 1.0;
  for (int i = 0; i < 2; i++) { double a = sx_double("x"), b = sx_double("y"); sx_assume((a - a == 0) & (b - b == 0)); p.add(i ? t1 : t0, a); q.add(i ? t1 : t0, b); }
  Trace tr{{"x", mk(p)}, {"y", mk(q)}};
  std::vector<Expr> fs{above("x"), above("y")};
  bool maximum = sx_choose("or", 2);
  Pts z = p;
#else
  static const double lats[][4] = {{0.0, 0.1, 0.7, 1.9}, {1e6, 1e6 + 0.1, 1e6 + 0.3, 1e6 + 1.0}};
  const double* lat = lats[sx_choose("lattice", 2)];
#ifdef THREE
  static const uint64_t masks[][3] = {{3, 3, 3}, {7, 5, 3}};
  uint64_t m = sx_choose("masks", THREE); bool maximum = sx_choose("or", 2);
  Pts p = subset("x", lat, LAT, masks[m][0]), q = subset("y", lat, LAT, masks[m][1]), z = subset("z", lat, LAT, masks[m][2]);
  Trace tr{{"x", mk(p)}, {"y", mk(q)}, {"z", mk(z)}};
  std::vector<Expr> fs{above("x"), above("y"), Predicate("z") < 0.5};
#else
#ifdef FULL
  uint64_t mx = (1 << LAT) - 1, my = mx;
  bool maximum = sx_choose("or", 2);
#else
  uint64_t mx = 1 + sx_choose("mx", (1 << LAT) - 1), my = 1 + sx_choose("my", (1 << LAT) - 1); bool maximum = sx_choose("or", 2);
#endif
  Pts p = subset("x", lat, LAT, mx), q = subset("y", lat, LAT, my), z = p;
  Trace tr{{"x", mk(p)}, {"y", mk(q)}};
  std::vector<Expr> fs{above("x", 0.25), Predicate("y") <= 0.5};
#endif
#endif
  double lo = p.t[0], hi = p.t[p.n - 1];
  for (const Pts* s : {&q, &z}) { if (s->t[0] > lo) lo = s->t[0]; if (s->t[s->n - 1] < hi) hi = s->t[s->n - 1]; }
  if (lo > hi) return;
  SignalPtr r; bool threw = false;
  try { r = rob(maximum ? Or(fs) : And(fs), tr); } catch (const std::exception&) { threw = true; }
  sx_check(!threw, "no-error");
  if (threw) return;
  sx_check(!r->empty(), "non-empty");
  if (r->empty()) return;
  sx_check((r->begin_time() == lo) & (r->end_time() == hi), "span");
  double prev = lo; bool first = true;
  for (const auto& s : *r) { if (!first) sx_check(s.time > prev, "strictly-increasing"); prev = s.time; first = false; }
  sx_reach(maximum ? "or" : "and");
}
#endif
