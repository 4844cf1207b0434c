// R12: purity and repeatability.
#include "h.h"
static void equal(const SignalPtr& a, const SignalPtr& b, const char* what) {
  sx_check(a->size() == b->size(), what);
  if (a->size() != b->size()) return;
  for (size_t i = 0; i < a->size(); i++) { auto u = a->at_idx(i), v = b->at_idx(i); sx_check((u.time == v.time) & same(u.value, v.value), what); }
}
static Expr build(uint64_t k) {
  switch (k) {
    case 0: return above("x", 1.0);
    case 1: return Not(above("x"));
    case 2: return And({above("x"), above("y")});
    case 3: return Or({above("x"), Not(above("x"))});
    case 4: return Always(above("x"));
    case 5: return Eventually(above("x"), win(0.5, 2.0));
    case 6: return Until(above("x"), above("y"));
    case 7: return And({Always(above("x")), Eventually(above("y"))});
    case 8: return Const(true);
    default: return Always(Or({above("x"), above("y")}), iwin(1, 3));
  }
}
static int shape(const Expr& e) {  // a structural fingerprint (exact constants folded in)
  int h = (int)e.index() + 1;
  if (auto p = std::get_if<ast::Predicate>(&e)) h = h * 31 + (int)p->op + (int)p->name.size() * 7 + (int)(p->rhs / VS * 16);
  else if (auto c = std::get_if<ast::Const>(&e)) h = h * 31 + c->value;
  else if (auto n = std::get_if<ast::NotPtr>(&e)) h = h * 31 + shape((*n)->arg);
  else if (auto a = std::get_if<ast::AndPtr>(&e)) for (auto& x : (*a)->args) h = h * 31 + shape(x);
  else if (auto o = std::get_if<ast::OrPtr>(&e)) for (auto& x : (*o)->args) h = h * 31 + shape(x);
  else if (auto g = std::get_if<ast::AlwaysPtr>(&e)) h = h * 31 + shape((*g)->arg) + (int)((*g)->interval.as_double().first / TS * 8);
  else if (auto f = std::get_if<ast::EventuallyPtr>(&e)) h = h * 31 + shape((*f)->arg) + (int)((*f)->interval.as_double().first / TS * 8);
  else if (auto u = std::get_if<ast::UntilPtr>(&e)) h = h * 31 + shape((*u)->args.first) * 3 + shape((*u)->args.second);
  return h;
}
#ifdef REUSE
// Formulas and traces come and go, and new ones take the memory of old ones (the engine runs this with --reuse): the result depends on
// neither. The expected results come from formulas and traces that stay alive.
static Expr made(uint64_t k, int c) {
  double d = c * VS;
  const char *a = c & 1 ? "x" : "y", *b = c & 1 ? "y" : "x";
  switch (k) {
    case 0: return above(a, d);
    case 1: return Not(above(a, d));
    case 2: return And({above(a, d), above(b)});
    case 3: return Or({above(a), above(b, d)});
    case 4: return Always(above(a, d));
    case 5: return Eventually(above(a, d), win(0.5 * c, 2.0 * c));
    case 6: return Until(above(a, d), above(b));
    default: return Always(Or({above(a, d), Not(above(b))}), win(0.5, 1.0 + c));
  }
}
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}};
  times(lat); slopes(sl);
  uint64_t k = sx_choose("formula", 8), what = sx_choose("what", 2);
  Pts p = ramp("x", lat, 4, 15, sl[0]), q = ramp("y", lat, 4, 15, sl[1]);
  static const int order[] = {2, 3, 1, 2};
  if (what == 0) {
    Trace tr{{"x", mk(p)}, {"y", mk(q)}};
    Expr keep[] = {made(k, 1), made(k, 2), made(k, 3)};
    SignalPtr want[] = {rob(keep[0], tr), rob(keep[1], tr), rob(keep[2], tr)};
    for (int c : order) { Expr f = made(k, c); auto r = rob(f, tr); equal(r, want[c - 1], "formula-in-old-memory"); }
  } else {
    Pts ps[] = {p, q, p}, qs[] = {q, p, p};
    Trace keep[] = {{{"x", mk(p)}, {"y", mk(q)}}, {{"x", mk(q)}, {"y", mk(p)}}, {{"x", mk(p)}, {"y", mk(p)}}};
    Expr f = made(k, 1);
    SignalPtr want[] = {rob(f, keep[0]), rob(f, keep[1]), rob(f, keep[2])};
    for (int c : order) { Trace tr{{"x", mk(ps[c - 1])}, {"y", mk(qs[c - 1])}}; auto r = rob(f, tr); equal(r, want[c - 1], "trace-in-old-memory"); }
  }
  sx_reach("reused");
}
#else
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}};
  times(lat); slopes(sl);
  static const uint64_t masks[][2] = {{15, 15}, {11, 14}, {6, 15}};
  uint64_t m = sx_choose("masks", MASKS), k = sx_choose("formula", 10), k2 = (k + 1 + sx_choose("other", 3) * 3) % 10;
  Pts p = ramp("x", lat, 4, masks[m][0], sl[0]), q = ramp("y", lat, 4, masks[m][1], sl[1]);
  auto x = mk(p), y = mk(q);
  Trace tr{{"x", x}, {"y", y}};
  Pts ox, oy; for (int i = 0; i < 4; i++) { ox.add(lat[i], (i == 2 ? -1.0 : 2.0 * i - 3) * VS); if (i < 3) oy.add(lat[i], (1.5 - i) * VS); }
  Trace other{{"x", mk(ox)}, {"y", mk(oy)}};
  Expr f = build(k), g = build(k2);
  int h = shape(f);
  auto r1 = rob(f, tr);
  Pts g1 = grab(*r1);
  auto r2 = rob(f, tr);
  equal(r1, r2, "repeat");
  auto o1 = rob(f, other);
  rob(g, other); rob(g, tr);
  equal(r1, rob(f, tr), "repeat-after-others");
  equal(o1, rob(build(k), other), "fresh-formula");
  sx_check(unchanged(*r1, g1), "result-untouched");
  sx_check(unchanged(*x, p) & unchanged(*y, q), "trace-untouched");
  sx_check(tr.size() == 2 && tr.at("x") == x && tr.at("y") == y, "trace-map-untouched");
  sx_check(shape(f) == h, "formula-untouched");
  // an unmentioned signal inside the span of the others
  double lo = p.t[0] < q.t[0] ? p.t[0] : q.t[0], hi = p.t[p.n - 1] > q.t[q.n - 1] ? p.t[p.n - 1] : q.t[q.n - 1];
  Trace more = tr; Pts z; z.add(lo, 3.0 * VS); z.add(hi, -4.0 * VS);
  more["a"] = mk(z); more["z"] = mk(z);
  equal(r1, rob(f, more), "unmentioned-signal");
  if (k != 8) { z.t[0] = lo - 5 * TS; z.t[1] = hi + 5 * TS; more["z"] = mk(z); equal(r1, rob(f, more), "unmentioned-wider-signal"); }
  sx_reach("pure");
}
#endif
