// A01: intervals.
#include "tree.h"
static void bounds(const ast::Interval& I, double a, double b) {
  auto d = I.as_double();
  sx_check(same(d.first, a), "low-bound"); sx_check(same(d.second, b), "high-bound");
  int unbounded = (a == 0) & (b == INF);
  sx_check(I.is_zero_to_inf() == (bool)sx_fork(unbounded), "zero-to-inf");
  sx_check(I.has_value() == !(bool)sx_fork(unbounded), "has-bound");
}
extern "C" void sx_main() {
  switch (sx_choose("form", 4)) {
    case 0: {
      double a = sx_double("a"), b = sx_double("b"); bool threw = false;
      try {
        ast::Interval I(a, b);
        bounds(I, a, b);
        ast::Interval J = I; bounds(J, a, b);
        ast::Interval K; K = J; bounds(K, a, b); bounds(I, a, b);
      } catch (const std::exception&) { threw = true; }
      int valid = (a >= 0) & (a < b);
      sx_check(threw == !(bool)sx_fork(valid), "accepted-iff-valid");
      sx_reach(threw ? "rejected" : "accepted"); break;
    }
    case 1: {
      uint64_t a = sx_u64("a"), b = sx_u64("b");
      ast::Interval I((unsigned long long)a, (unsigned long long)b);
      bounds(I, (double)a, (double)b);
      auto lo = std::get_if<unsigned long long>(&I.low), hi = std::get_if<unsigned long long>(&I.high);
      sx_check(lo && hi, "integer-kept"); if (lo && hi) sx_check((*lo == a) & (*hi == b), "integer-value");
      sx_reach("integer"); break;
    }
    case 2: { ast::Interval I; bounds(I, 0.0, INF); sx_check(!I.has_value(), "default-unbounded"); sx_reach("default"); break; }
    default: {   // carried unchanged by every temporal operator
      double a = sx_double("a"), b = sx_double("b"); int valid = (a >= 0) & (a < b); sx_assume(valid);
      ast::Interval I(a, b); Expr x = above("x"), y = above("y");
      uint64_t k = sx_choose("op", 3);
      Expr e = k == 0 ? Always(x, I) : k == 1 ? Eventually(x, I) : Until(x, y, I);
      Expr copy = e;
      const ast::Interval& J = k == 0 ? std::get<5>(copy)->interval : k == 1 ? std::get<6>(copy)->interval : std::get<7>(copy)->interval;
      bounds(J, a, b);
      Expr d = k == 0 ? Always(x) : k == 1 ? Eventually(x) : Until(x, y);
      bounds(k == 0 ? std::get<5>(d)->interval : k == 1 ? std::get<6>(d)->interval : std::get<7>(d)->interval, 0.0, INF);
      sx_reach("carried");
    }
  }
}
