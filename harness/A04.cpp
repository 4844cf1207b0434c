// A04: builders record what they are given.
#include "tree.h"
static std::string name(const char* nm) {
  static const char* fixed[] = {"", "x", "a_rather_long_signal_name_beyond_the_small_string_buffer"};
  uint64_t k = sx_choose(nm, 5);
  if (k < 3) return fixed[k];
  std::string s; for (uint64_t i = 0; i < k - 2; i++) s += (char)sx_byte("ch");
  return s;
}
static Expr leaf(uint64_t k) {
  switch (k) {
    case 0: return above("p");
    case 1: return Expr{Const(true)};
    case 2: return Expr{Const(false)};
    case 3: return std::make_shared<ast::Not>(above("q"));
    case 4: return std::make_shared<ast::And>(std::vector<Expr>{above("p"), above("q")});
    case 5: return std::make_shared<ast::Or>(std::vector<Expr>{above("q"), above("p")});
    case 6: return std::make_shared<ast::Always>(above("p"), ast::Interval(1.0, 2.5));
    case 7: return std::make_shared<ast::Eventually>(above("p"), ast::Interval(0.5, INF));
    case 8: return std::make_shared<ast::Until>(above("p"), above("q"), ast::Interval(3ull, 4ull));
    case 9: return std::make_shared<ast::Always>(above("q"));
    case 10: return std::make_shared<ast::Eventually>(above("q"));
    default: return std::make_shared<ast::Until>(above("q"), above("p"));
  }
}
#ifdef WIDE
extern "C" void sx_main() {
  using C = ast::ComparisonOp;
  static const int N[] = {6, 9, 17, 40};
  int n = N[sx_choose("n", 4)], at = (int)sx_choose("free", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; double c = sx_double("c");
  if (sx_choose("what", 2)) {                      // many operands, repeated ones too
    bool con = sx_choose("and", 2), rep = sx_choose("repeated", 2); std::vector<Expr> in, copy;
    for (int i = 0; i < n; i++) { if (i % 5 == 4) in.push_back(leaf(1 + (uint64_t)(i / 5) % 11)); else in.push_back(pred(rep ? "z" : i % 2 ? "y" : "z", C::LT, i == at ? c : rep ? 1.0 : (double)i)); }
    for (auto& x : in) copy.push_back(clone(x));
    Expr e = con ? And(in) : Or(in);
    sx_check(e.index() == (con ? 3u : 4u), "connective"); if (e.index() != (con ? 3u : 4u)) return;
    auto& v = con ? std::get<3>(e)->args : std::get<4>(e)->args;
    sx_check(v.size() == (size_t)n, "operand-count"); if (v.size() != (size_t)n) return;
    for (int i = 0; i < n; i++) sx_check(eq(v[i], copy[i]) & eq(in[i], copy[i]), "operand");
    sx_reach("nary");
  } else {                                         // long names that differ in one place
    int w = (int)sx_choose("length", 3); size_t k = w == 0 ? 16 : w == 1 ? 64 : 200; size_t p = at == 0 ? 0 : at == n / 2 ? k / 2 : k - 1;
    std::string a; for (size_t i = 0; i < k; i++) a += (char)('a' + i % 26);
    std::string b = a; a[p] = (char)sx_byte("ch"); b[p] = (char)sx_byte("ch");
    ast::Predicate x = Predicate(a) > c, y = Predicate(b) > c;
    sx_check(sameStr(x.name, a) & sameStr(y.name, b) & sx_same(x.rhs, c), "name");
    int want = (a[p] == b[p]) & (c == c); bool q = sx_fork(want);
    sx_check((x == y) == q, "equal-iff"); sx_reach(q ? "equal" : "different");
  }
}
#else
extern "C" void sx_main() {
  using C = ast::ComparisonOp;
  switch (sx_choose("what", 6)) {
    case 0: {                                       // comparison operators
      std::string n = name("name"); double c = sx_double("c"), c0 = sx_double("c0"); uint64_t op = sx_choose("op", 4);
      ast::Predicate base = Predicate(n);
      sx_check(sameStr(base.name, n), "name");
      if (sx_choose("rebase", 2)) base = base >= c0;  // a comparison replaces an earlier one
      ast::Predicate p = op == 0 ? base < c : op == 1 ? base <= c : op == 2 ? base > c : base >= c;
      sx_check(sameStr(p.name, n), "name"); sx_check(p.op == (op == 0 ? C::LT : op == 1 ? C::LE : op == 2 ? C::GT : C::GE), "comparison"); sx_check(sx_same(p.rhs, c), "constant");
      sx_check(sameStr(base.name, n), "base-untouched");
      Expr e = p; sx_check(e.index() == 1, "predicate-kind");
      sx_check(sameStr(std::get<1>(e).name, n) & sx_same(std::get<1>(e).rhs, c) & (std::get<1>(e).op == p.op), "predicate-kept");
      ast::Predicate d{n, p.op, c}; sx_check(sameStr(d.name, n) & (d.op == p.op) & sx_same(d.rhs, c), "constructor");
      sx_reach("predicate"); break;
    }
    case 1: {                                       // equality of predicates
      static const C ops[] = {C::GT, C::GE, C::LT, C::LE};
      std::string n = name("n1"), m = name("n2"); uint64_t i = sx_choose("op1", 4), j = sx_choose("op2", 4);
      double c = sx_double("c1"), d = sx_double("c2");
      ast::Predicate p{n, ops[i], c}, q{m, ops[j], d};
      int want = sameStr(n, m) & (i == j) & (c == d);
      bool w = sx_fork(want);
      sx_check((p == q) == w, "equal-iff"); sx_check((p != q) == !w, "unequal-iff");
      sx_reach(w ? "equal" : "different"); break;
    }
    case 2: {                                       // constants
      bool a = sx_choose("a", 2), b = sx_choose("b", 2);
      ast::Const x = Const(a), y(b);
      sx_check(x.value == a && y.value == b, "constant-value"); sx_check((x == y) == (a == b), "constants-equal"); sx_check((x != y) == (a != b), "constants-unequal");
      sx_check(ast::Const().value == false, "default-constant");
      sx_reach("constant"); break;
    }
    case 3: {                                       // and / or with n operands
      uint64_t n = sx_choose("n", 6); bool con = sx_choose("and", 2); std::vector<Expr> in, copy; bool threw = false; Expr e;
      for (uint64_t i = 0; i < n; i++) in.push_back(i < 2 ? leaf(sx_choose("leaf", 12)) : i < 3 ? leaf(sx_choose("leaf", 3) * 4) : pred("z", C::LT, (double)i));
      for (auto& x : in) copy.push_back(clone(x));
      try { e = con ? And(in) : Or(in); } catch (const std::exception&) { threw = true; }
      sx_check(threw == (n < 2), "arity");
      if (threw) { sx_reach("too-few"); return; }
      sx_check(e.index() == (con ? 3u : 4u), "connective"); if (e.index() != (con ? 3u : 4u)) return;
      auto& v = con ? std::get<3>(e)->args : std::get<4>(e)->args;
      sx_check(v.size() == n, "operand-count"); if (v.size() != n) return;
      for (uint64_t i = 0; i < n; i++) sx_check(eq(v[i], copy[i]) && eq(in[i], copy[i]), "operand");
      sx_reach("nary"); break;
    }
    case 4: {                                       // not, always, eventually, until
      uint64_t k = sx_choose("op", 7); uint64_t i = sx_choose("f", 12); uint64_t j = k == 3 || k == 6 ? sx_choose("g", 12) : 0; bool integer = sx_choose("integer", 2);
      Expr f = leaf(i), g = leaf(j);
      double a = 0.0, b = INF; uint64_t ia = 0, ib = 0;
      if (k >= 4) { if (integer) { ia = sx_u64("ia"); ib = sx_u64("ib"); } else { a = sx_double("a"); b = sx_double("b"); int v = (a >= 0) & (a < b); sx_assume(v); } } else if (integer) return;
      ast::Interval I = integer && k >= 4 ? ast::Interval((unsigned long long)ia, (unsigned long long)ib) : ast::Interval(a, b);
      Expr e; const ast::Interval* J = nullptr;
      switch (k) {
        case 0: e = Not(f); break;
        case 1: e = Always(f); break;
        case 2: e = Eventually(f); break;
        case 3: e = Until(f, g); break;
        case 4: e = Always(f, I); break;
        case 5: e = Eventually(f, I); break;
        default: e = Until(f, g, I); break;
      }
      size_t kind = k == 0 ? 2 : k == 1 || k == 4 ? 5 : k == 2 || k == 5 ? 6 : 7;
      if (k == 0 && f.index() == 0) { sx_check(e.index() == 0 && std::get<0>(e).value == !std::get<0>(f).value, "not-constant"); sx_reach("unary"); return; }
      sx_check(e.index() == kind, "operator"); if (e.index() != kind) return;
      if (kind == 2) sx_check(eq(std::get<2>(e)->arg, leaf(i)), "operand");
      if (kind == 5) { sx_check(eq(std::get<5>(e)->arg, leaf(i)), "operand"); J = &std::get<5>(e)->interval; }
      if (kind == 6) { sx_check(eq(std::get<6>(e)->arg, leaf(i)), "operand"); J = &std::get<6>(e)->interval; }
      if (kind == 7) { sx_check(eq(std::get<7>(e)->args.first, leaf(i)) && eq(std::get<7>(e)->args.second, leaf(j)), "operand-order"); J = &std::get<7>(e)->interval; }
      if (J) {
        sx_check(eqInterval(*J, I), "interval");
        if (integer && k >= 4) { auto l = std::get_if<unsigned long long>(&J->low), h = std::get_if<unsigned long long>(&J->high); sx_check(l && h, "integer-interval"); if (l && h) sx_check((*l == ia) & (*h == ib), "integer-bounds"); }
      }
      sx_reach(kind == 7 ? "until" : "unary"); break;
    }
    default: {                                      // shared formulas stay intact when used twice
      uint64_t i = sx_choose("f", 12); Expr f = leaf(i);
      Expr a = And({f, f}), b = Or({Not(f), Always(f), f}), c = Until(f, a);
      sx_check(eq(f, leaf(i)), "shared"); sx_check(eq(std::get<7>(c)->args.second, a) && eq(std::get<3>(a)->args[1], leaf(i)) && eq(std::get<4>(b)->args[2], leaf(i)), "shared-operand");
      sx_reach("shared");
    }
  }
}
#endif
