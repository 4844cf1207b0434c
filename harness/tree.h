// Structural view of formulas, independent of the library's own comparison functions.
#pragma once
#include "h.h"
#include <variant>
namespace {
// kind letter of a node: c p n a o G F U
[[maybe_unused]] char kindOf(const Expr& e) { return "cpnaoGFU"[e.index()]; }
[[maybe_unused]] int sameStr(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return 0;
  int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
  return ok;
}
[[maybe_unused]] int eqInterval(const ast::Interval& a, const ast::Interval& b) {
  auto x = a.as_double(), y = b.as_double();
  return same(x.first, y.first) & same(x.second, y.second) & (a.low.index() == b.low.index()) & (a.high.index() == b.high.index());
}
// 1 if the same tree (symbolic constants compared bit for bit), without forking
[[maybe_unused]] int eq(const Expr& a, const Expr& b) {
  if (a.index() != b.index()) return 0;
  switch (a.index()) {
    case 0: return std::get<0>(a).value == std::get<0>(b).value;
    case 1: { auto &p = std::get<1>(a), &q = std::get<1>(b); return sameStr(p.name, q.name) & (p.op == q.op) & sx_same(p.rhs, q.rhs); }
    case 2: return eq(std::get<2>(a)->arg, std::get<2>(b)->arg);
    case 3: case 4: {
      auto& p = a.index() == 3 ? std::get<3>(a)->args : std::get<4>(a)->args; auto& q = a.index() == 3 ? std::get<3>(b)->args : std::get<4>(b)->args;
      if (p.size() != q.size()) return 0;
      int ok = 1; for (size_t i = 0; i < p.size(); i++) ok &= eq(p[i], q[i]);
      return ok;
    }
    case 5: return eq(std::get<5>(a)->arg, std::get<5>(b)->arg) & eqInterval(std::get<5>(a)->interval, std::get<5>(b)->interval);
    case 6: return eq(std::get<6>(a)->arg, std::get<6>(b)->arg) & eqInterval(std::get<6>(a)->interval, std::get<6>(b)->interval);
    default: { auto &p = *std::get<7>(a), &q = *std::get<7>(b); return eq(p.args.first, q.args.first) & eq(p.args.second, q.args.second) & eqInterval(p.interval, q.interval); }
  }
}
// an independent deep copy
[[maybe_unused]] Expr clone(const Expr& e) {
  switch (e.index()) {
    case 0: case 1: return e;
    case 2: return std::make_shared<ast::Not>(clone(std::get<2>(e)->arg));
    case 3: case 4: {
      auto& p = e.index() == 3 ? std::get<3>(e)->args : std::get<4>(e)->args; std::vector<Expr> v; for (auto& x : p) v.push_back(clone(x));
      if (e.index() == 3) return std::make_shared<ast::And>(v);
      return std::make_shared<ast::Or>(v);
    }
    case 5: return std::make_shared<ast::Always>(clone(std::get<5>(e)->arg), std::get<5>(e)->interval);
    case 6: return std::make_shared<ast::Eventually>(clone(std::get<6>(e)->arg), std::get<6>(e)->interval);
    default: { auto& p = *std::get<7>(e); return std::make_shared<ast::Until>(clone(p.args.first), clone(p.args.second), p.interval); }
  }
}
[[maybe_unused]] Expr pred(const char* name, ast::ComparisonOp op, double c) { return ast::Predicate{name, op, c}; }
} // namespace
