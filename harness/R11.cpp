// R11: the sign of robustness against the Boolean reading. Temporal operators range over formulas whose
// sampled instants are those of the trace (no conjunction of crossing operands below a temporal operator).
#include "h.h"
#ifndef N
#define N 3
#endif
struct B { int v[N]; };        // Boolean verdict per sample; strict: 1 = ">" / "<" as written
static B fill(int b) { B r; for (int i = 0; i < N; i++) r.v[i] = b; return r; }
extern "C" void sx_main() {
  double ts[] = {0.0, 1.0, 1.5, 4.0, 4.5};
  times(ts);
  Pts p, q;
  for (int i = 0; i < N; i++) { p.add(ts[i], val("x")); q.add(ts[i], val("y")); }
  double c = sx_real("c", -16 * VS, 16 * VS, SCALE ? VBITS : 4);
  Trace tr{{"x", mk(p)}, {"y", mk(q)}};
  // atoms
  uint64_t op1 = sx_choose("op1", 4), op2 = sx_choose("op2", 2) * 2;
  auto atom = [&](const char* n, uint64_t op, const Pts& s, Expr& e) {
    auto b = Predicate(n); B r;
    e = op == 0 ? b > c : op == 1 ? b >= c : op == 2 ? b < c : b <= c;
    for (int i = 0; i < N; i++) r.v[i] = op == 0 ? s.v[i] > c : op == 1 ? s.v[i] >= c : op == 2 ? s.v[i] < c : s.v[i] <= c;
    return r;
  };
  Expr a, b; B A = atom("x", op1, p, a), C = atom("y", op2, q, b);
  auto no = [&](B x) { for (int& i : x.v) i = !i; return x; };
  auto all = [&](B x, double lo, double hi, bool any) {   // over the samples in [t+lo, t+hi]; sampled windows only
    B r; for (int i = 0; i < N; i++) { int z = any ? 0 : 1; for (int j = 0; j < N; j++) if (ts[j] >= ts[i] + lo && ts[j] <= ts[i] + hi) z = any ? (z | x.v[j]) : (z & x.v[j]); r.v[i] = z; } return r; };
  auto until = [&](B x, B y) { B r; for (int i = N - 1; i >= 0; i--) r.v[i] = x.v[i] & (y.v[i] | (i + 1 < N ? r.v[i + 1] : 0)); return r; };
  auto both = [&](B x, B y) { for (int i = 0; i < N; i++) x.v[i] &= y.v[i]; return x; };
  auto either = [&](B x, B y) { for (int i = 0; i < N; i++) x.v[i] |= y.v[i]; return x; };
  Expr f = a; B S = A;
  uint64_t k = sx_choose("formula", 16);
  switch (k) {
    case 0: break;
    case 1: f = Not(a); S = no(A); break;
    case 2: f = And({a, b}); S = both(A, C); break;
    case 3: f = Or({a, b}); S = either(A, C); break;
    case 4: f = Always(a); S = all(A, 0, INF, false); break;
    case 5: f = Eventually(a); S = all(A, 0, INF, true); break;
    case 6: f = Until(a, b); S = until(A, C); break;
    case 7: f = Always(Eventually(a)); S = all(all(A, 0, INF, true), 0, INF, false); break;
    case 8: f = Eventually(Always(b)); S = all(all(C, 0, INF, false), 0, INF, true); break;
    case 9: f = And({Always(a), Not(Eventually(b))}); S = both(all(A, 0, INF, false), no(all(C, 0, INF, true))); break;
    case 10: f = Until(Not(a), Eventually(b)); S = until(no(A), all(C, 0, INF, true)); break;
    case 11: f = Or({Until(a, b), Always(Not(a))}); S = either(until(A, C), all(no(A), 0, INF, false)); break;
    case 12: f = And({a, b, Eventually(a)}); S = both(both(A, C), all(A, 0, INF, true)); break;
    case 13: f = Implies(a, Eventually(b)); S = either(no(A), all(C, 0, INF, true)); break;
    case 14: f = Not(Until(a, Not(b))); S = no(until(A, no(C))); break;
    default: f = Or({Const(false), Always(b)}); S = all(C, 0, INF, false); break;
  }
  auto r = rob(f, tr);
  int i = 0;
  for (const auto& s : *r) {
    if (i < N && sx_fork(s.time == ts[i])) {
      sx_check(!(s.value > 0) | S.v[i], "positive-but-violated");
      sx_check(!(s.value < 0) | !S.v[i], "negative-but-satisfied");
      i++;
    }
  }
  sx_check(i == N, "timestamps");
  sx_reach("evaluated");
}
