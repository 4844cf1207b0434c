// A02: combining formulas with & | ~.
#include "tree.h"
#ifndef K
#define K 3
#endif
static double c1, c2;
static Expr leaf(uint64_t k) {
  Expr p = pred("p", ast::ComparisonOp::GT, c1), q = pred("q", ast::ComparisonOp::LE, c2), r = pred("r", ast::ComparisonOp::LT, 3.0);
  switch (k) {
    case 0: return p;
    case 1: return Const(true);
    case 2: return Const(false);
    case 3: return And({p, q});
    case 4: return Or({q, p});
    case 5: return Not(q);
    case 6: return And({r, Or({p, q}), q});
    case 7: return Or({And({q, r}), p, p});
    case 8: return Always(And({p, q}), ast::Interval(1.0, 2.0));
    case 9: return Eventually(q);
    case 10: return Until(p, q);
    case 11: return And({And({p, r}), q});
    case 12: return Or({q, Or({p, r})});
    case 13: return Or({p, q});
    default: return And({q, p});
  }
}
// operands of e read as a conjunction (disjunction): nested ones of the same kind are opened, units dropped, a zero absorbs
static void flat(const Expr& e, bool con, std::vector<Expr>& out, bool& zero) {
  if (e.index() == 0) { if (std::get<0>(e).value != con) zero = true; return; }
  if (con && e.index() == 3) { for (auto& x : std::get<3>(e)->args) flat(x, con, out, zero); return; }
  if (!con && e.index() == 4) { for (auto& x : std::get<4>(e)->args) flat(x, con, out, zero); return; }
  out.push_back(e);
}
static void meaning(const Expr& got, const Expr& a, const Expr& b, bool con) {
  std::vector<Expr> g, w; bool gz = false, wz = false;
  flat(got, con, g, gz); flat(a, con, w, wz); flat(b, con, w, wz);
  sx_check(gz == wz, "zero-absorbs");
  if (gz || wz) { if (got.index() == 0) sx_check(std::get<0>(got).value == !con, "zero-value"); return; }
  sx_check(g.size() == w.size(), "operand-count");
  if (g.size() != w.size()) return;
  for (size_t i = 0; i < g.size(); i++) sx_check(eq(g[i], w[i]), "operand");
}
#ifdef CHAIN
// long chains: many operands, on either side, one constant arbitrary
extern "C" void sx_main() {
  static const int N[] = {5, 9, 17, 40};
  int n = N[sx_choose("length", 4)], pat = (int)sx_choose("pattern", 5); bool con = sx_choose("and", 2);
  int at = (int)sx_choose("free", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  c1 = sx_double("c1");
  Expr cur = pred("s0", ast::ComparisonOp::GE, at == 0 ? c1 : 0.0);
  for (int i = 1; i < n; i++) {
    Expr x = pred(i % 4 == 3 ? "s0" : "s1", ast::ComparisonOp::GE, i == at ? c1 : (double)(i % 3)), rhs;
    bool c = con;
    switch (pat) {
      case 0: rhs = x; break;                                        // a & b & c ...
      case 1: rhs = i % 2 ? And({x, x}) : Or({x, x}); break;         // operands that are conjunctions and disjunctions
      case 2: rhs = x; c = (i / 5) % 2 ? !con : con; break;          // alternating runs
      case 3: rhs = i % 3 == 2 ? ~x : x; break;
      default: rhs = i == 4 ? cur : x; break;                        // the chain combined with itself
    }
    Expr before = clone(cur), rb = clone(rhs), keep = cur;
    Expr got = c ? cur & rhs : cur | rhs;
    if (i == n - 1 || i % 4 == 0) { sx_check(eq(keep, before) & eq(rhs, rb), "untouched"); meaning(got, before, rb, c); }
    if (before.index() == (c ? 3u : 4u)) { sx_check(got.index() == before.index(), "merged"); sx_reach("merged"); }
    cur = got;
  }
  sx_reach("chain");
}
#else
extern "C" void sx_main() {
  c1 = sx_double("c1"); c2 = sx_double("c2");
  Expr cur = leaf(sx_choose("first", 15));
  for (int i = 1; i < K; i++) {
    uint64_t how = sx_choose("how", i == 1 ? 2 : 3);
    if (how == 2) {                               // negate the result so far
      Expr before = clone(cur), n = ~cur, n2 = Not(cur);
      for (const Expr* z : {&n, &n2}) {
        if (cur.index() == 0) sx_check(z->index() == 0 && std::get<0>(*z).value == !std::get<0>(cur).value, "constant-flipped");
        else { sx_check(z->index() == 2, "negation"); if (z->index() == 2) sx_check(eq(std::get<2>(*z)->arg, before), "negated-operand"); }
      }
      sx_check(eq(cur, before), "untouched"); sx_reach("not");
      cur = n; continue;
    }
    uint64_t nx = sx_choose("next", 16);
    Expr rhs = nx == 15 ? cur : leaf(nx), before = clone(cur), rb = clone(rhs);
    Expr keep = cur;                              // shares its nodes with cur
    bool con = how == 0, threw = false; Expr got;
    try { got = con ? cur & rhs : cur | rhs; } catch (const std::exception&) { threw = true; }
    sx_check(!threw, "no-error");
    if (threw) return;
    sx_check(eq(cur, before) & eq(keep, before) & eq(rhs, rb), "untouched");
    meaning(got, before, rb, con);
    // a conjunction on the left takes the right operand(s) in
    if (before.index() == (con ? 3u : 4u) && rb.index() != 0) {
      sx_check(got.index() == before.index(), "merged");
      if (got.index() == before.index()) {
        auto args = [](const Expr& e) -> const std::vector<Expr>& { return e.index() == 3 ? std::get<3>(e)->args : std::get<4>(e)->args; };
        size_t extra = rb.index() == before.index() ? args(rb).size() : 1;
        sx_check(args(got).size() == args(before).size() + extra, "merged-count"); sx_reach("merged");
      }
    }
    if (got.index() != 0 && cur.index() != 0 && rhs.index() != 0) sx_check(got.index() == (con ? 3u : 4u), "connective");
    cur = got; sx_reach(con ? "and" : "or");
  }
}
#endif
