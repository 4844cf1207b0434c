// A03: implication, exclusive or, equivalence.
#include "tree.h"
static Expr leaf(uint64_t k, const char* n) {
  switch (k) {
    case 0: return above(n, 0.25);
    case 1: return Predicate(n) <= 0.5 * VS;
    case 2: return Const(true);
    case 3: return Const(false);
    case 4: return Always(above(n));
    case 5: return Not(above(n));
    case 6: return And({above(n, -1.0), above(n, 0.5)});
    default: return Or({above(n), above(n, 2.0)});
  }
}
extern "C" void sx_main() {
  double ts[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}, {0, 1, -1}};
  times(ts); slopes(sl);
  static const uint64_t masks[][2] = {{3, 3}, {7, 5}, {6, 7}, {15, 11}};
  uint64_t m = sx_choose("masks", MASKS), w = sx_choose("slopes", SLOPES);
  Pts p = ramp("x", ts, 4, masks[m][0], sl[w]), q = ramp("y", ts, 4, masks[m][1], sl[(w + 1) % 3]);
  Trace tr{{"x", mk(p)}, {"y", mk(q)}};
  uint64_t op = sx_choose("op", 3), ka = sx_choose("a", 8);
#ifdef SAME     // the second operand is the first one itself, an equal formula, its negation, or another one over the same signal
  uint64_t kb = ka, rel = sx_choose("relation", 4);
  if (rel == 2 && (ka == 2 || ka == 3)) { kb = 5 - ka; rel = 1; }
  if (rel == 3) kb = (ka + 1) % 8;
  Expr a = leaf(ka, "x"), b = rel == 0 ? a : rel == 2 ? Not(a) : leaf(kb, "x"), a0= clone(a), b0 = clone(b), f; bool threw = false;
#else
  uint64_t kb = sx_choose("b", 8);
  Expr a = leaf(ka, "x"), b = leaf(kb, "y"), a0 = clone(a), b0 = clone(b), f; bool threw = false;
#endif
  try { f = op == 0 ? Implies(a, b) : op == 1 ? Xor(a, b) : Iff(a, b); } catch (const std::exception&) { threw = true; }
  sx_check(!threw, "no-error"); if (threw) return;
  sx_check(eq(a, a0) & eq(b, b0), "operands-untouched");
  if (op == 0 && ka != 2 && ka != 3) { Expr g = ast::operator|(~a0, b0); sx_check(eq(f, g), "implication-shape"); }
  bool ca = ka == 2 || ka == 3, cb = kb == 2 || kb == 3;
  auto r = rob(f, tr), ra = rob(a, tr), rb = rob(b, tr);
  if (ca && cb) {
    bool va = ka == 2, vb = kb == 2, e = op == 0 ? !va || vb : op == 1 ? va != vb : va == vb;
    sx_check(!r->empty(), "non-empty");
    for (const auto& s : *r) sx_check(s.value == (e ? INF : -INF), "truth-table");
    sx_reach("constants"); return;
  }
  // expected at every sampled instant of either operand in their common span
  Pts A = grab(*ra), B = grab(*rb), e = common(A, B, true, false);
  if (ca || cb) {                                   // a constant spans the whole trace
    const Pts& o = ca ? B : A; e = o;
  }
  for (int i = 0; i < e.n; i++) {
    double va = ca ? (ka == 2 ? INF : -INF) : ref_at(A, e.t[i]), vb = cb ? (kb == 2 ? INF : -INF) : ref_at(B, e.t[i]);
    e.v[i] = op == 0 ? sx_max(-va, vb) : op == 1 ? sx_min(sx_max(va, vb), sx_max(-va, -vb)) : sx_max(sx_min(va, vb), sx_min(-va, -vb));
  }
  if (f.index() == 0) {                              // reduced to a constant: that value everywhere
    bool v = std::get<0>(f).value;
    for (int i = 0; i < e.n; i++) sx_check(e.v[i] == (v ? INF : -INF), "value");
    for (const auto& s : *r) sx_check(s.value == (v ? INF : -INF), "value");
    sx_reach("reduced"); return;
  }
  // every expected instant is sampled with that value
  int k = 0;
  for (const auto& s : *r) {
    if (k < e.n && sx_fork(s.time == e.t[k])) { sx_check((s.value == e.v[k]) | near(s.value, e.v[k]), "value"); k++; }
  }
  sx_check(k == e.n, "instants");
  sx_reach(ca || cb ? "reduced" : "evaluated");
}
