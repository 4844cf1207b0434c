// R10: duals.
#include "h.h"
static void agree(const SignalPtr& a, const SignalPtr& b, const Pts& e) {
  // at every given timestamp both have a sample, with one value
  size_t i = 0, j = 0;
  for (int k = 0; k < e.n; k++) {
    while (i < a->size() && sx_fork(a->at_idx(i).time < e.t[k])) i++;
    while (j < b->size() && sx_fork(b->at_idx(j).time < e.t[k])) j++;
    bool ha = i < a->size() && sx_fork(a->at_idx(i).time == e.t[k]), hb = j < b->size() && sx_fork(b->at_idx(j).time == e.t[k]);
    sx_check(ha && hb, "present");
    if (ha && hb) sx_check(near(a->at_idx(i).value, b->at_idx(j).value) | same(a->at_idx(i).value, b->at_idx(j).value), "equal");
  }
  sx_check(a->empty() == b->empty(), "emptiness");
  if (!a->empty() && !b->empty()) sx_check((a->begin_time() == b->begin_time()) & (a->end_time() == b->end_time()), "span");
}
extern "C" void sx_main() {
  double lat[] = {0.0, 1.0, 1.5, 4.0}, sl[][3] = {{1, -2, 0.5}, {-1, 3, 0}, {-0.5, 1, -1}};
  times(lat); slopes(sl);
  static const uint64_t masks[][2] = {{15, 15}, {11, 14}, {6, 15}, {13, 11}, {1, 15}, {5, 10}};
  struct W { double a, b; bool integer; };
  static const W ws[] = {{0, INF, 0}, {0, 1, 0}, {0.5, 1.5, 0}, {1, 2, 1}, {1, 1, 1}, {2, INF, 0}, {0, 100, 0}, {0.3, 9, 0}};
  uint64_t what = sx_choose("what", SCALE == 6 ? 2 : 4), m = sx_choose("masks", 6);
  if (what < 2) {
    W w = ws[sx_choose("window", 8)];
    if (SCALE == 2 || !w.integer || w.a != w.b) { w.a *= TS; w.b *= TS; if (SCALE != 2 && SCALE) w.integer = 0; }
    bool plain = w.b == INF && w.a == 0 && sx_choose("no-interval", 2);
    Pts p = subset("x", lat, 4, masks[m][0]);
    Trace tr{{"x", mk(p)}};
    ast::Interval I = w.integer ? ast::Interval((unsigned long long)w.a, (unsigned long long)w.b) : ast::Interval(w.a, w.b);
    Expr f = above("x", 1.0), d;
    auto A = [&](Expr e) { return plain ? Always(e) : Always(e, I); };
    auto E_ = [&](Expr e) { return plain ? Eventually(e) : Eventually(e, I); };
    agree(rob(what ? E_(f) : A(f), tr), rob(what ? Not(A(Not(f))) : Not(E_(Not(f))), tr), p);
    sx_reach(what ? "eventually" : "always");
  } else {
    uint64_t w = sx_choose("slopes", 3), n3 = sx_choose("operands", 4);
    Pts p = ramp("x", lat, 4, masks[m][0], sl[w]), q = ramp("y", lat, 4, masks[m][1], sl[(w + 1) % 3]);
    Trace tr{{"x", mk(p)}, {"y", mk(q)}};
    std::vector<Expr> fs{above("x"), above("y")}, ns{Not(above("x")), Not(above("y"))};
    if (n3 > 1) { fs.insert(fs.begin() + (n3 == 2), Const(n3 == 2)); ns.insert(ns.begin() + (n3 == 2), Not(Const(n3 == 2))); }
    else if (n3) { fs.push_back(Predicate("x") < 2.0 * VS); ns.push_back(Not(Predicate("x") < 2.0 * VS)); }
    agree(rob(what == 2 ? And(fs) : Or(fs), tr), rob(what == 2 ? Not(Or(ns)) : Not(And(ns)), tr), common(p, q, false, false));
    sx_reach(what == 2 ? "and" : "or");
  }
}
