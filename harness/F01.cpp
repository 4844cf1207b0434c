// F01: the printed form shows the formula. It is read back with a reader of the documented notation: since what is read
// is the formula that was printed, everything is shown and different formulas print differently.
#include "tree.h"
#include "signal_tl/fmt.hpp"
#include <cstdlib>
#include <cstring>
#include <sstream>
#ifdef SMALL
#define INTERVALS 3
#else
#define INTERVALS 7
#endif
namespace {
struct Unread {};
struct Reader {
  std::string s; size_t i = 0;
  void sp() { while (i < s.size() && s[i] == ' ') i++; }
  bool eat(const char* w) { size_t m = strlen(w); if (i + m > s.size()) return false; for (size_t j = 0; j < m; j++) if (s[i + j] != w[j]) return false; i += m; return true; }
  void need(const char* w) { if (!eat(w)) throw Unread{}; }
  double number() {
    sp(); char b[64]; int n = 0;
    if (sx_symbolic() && i + 9 <= s.size() && s[i] == 1) { double d; char* p = (char*)&d; for (int k = 0; k < 8; k++) p[k] = s[i + 1 + k]; i += 9; return d; }
    while (i < s.size() && n < 63 && ((s[i] >= '0' && s[i] <= '9') || s[i] == '.' || s[i] == 'e' || s[i] == '+' || s[i] == '-')) b[n++] = s[i++];
    b[n] = 0; if (!n) { if (eat("inf")) return INF; throw Unread{}; }
    return b[0] == '-' ? -strtod(b + 1, nullptr) : strtod(b, nullptr);
  }
  ast::Interval interval() {                              // [a,b], [a, inf), or nothing
    if (i >= s.size() || s[i] != '[') return ast::Interval{};
    i++; double a = number(); sp(); need(","); double b = number(); sp();
    if (!eat("]")) need(")");
    ast::Interval r; r.low = a; r.high = b;
    if (!r.has_value()) throw Unread{};                   // not shown when it is [0, inf)
    return r;
  }
  Expr formula() {
    sp();
    if (eat("true")) return ast::Const{true};
    if (eat("false")) return ast::Const{false};
    if (eat("~")) return std::make_shared<ast::Not>(formula());
    if (eat("G")) { auto iv = interval(); return std::make_shared<ast::Always>(formula(), iv); }
    if (eat("F")) { auto iv = interval(); return std::make_shared<ast::Eventually>(formula(), iv); }
    need("("); sp();
    if (i < s.size() && s[i] != '(' && s[i] != '~' && s[i] != 'G' && s[i] != 'F' && !at("true") && !at("false")) {
      std::string name; while (i < s.size() && s[i] != ' ') name += s[i++];
      sp();
      ast::ComparisonOp op = eat("<=") ? ast::ComparisonOp::LE : eat(">=") ? ast::ComparisonOp::GE : eat("<") ? ast::ComparisonOp::LT : eat(">") ? ast::ComparisonOp::GT : throw Unread{};
      double c = number(); sp(); need(")");
      return ast::Predicate{name, op, c};
    }
    Expr a = formula(); sp();
    if (eat("U")) { auto iv = interval(); Expr b = formula(); sp(); need(")"); return std::make_shared<ast::Until>(a, b, iv); }
    char j = i < s.size() ? s[i] : 0;
    if (j != '&' && j != '|') throw Unread{};
    std::vector<Expr> v{a};
    while (i < s.size() && s[i] == j) { i++; v.push_back(formula()); sp(); }
    need(")");
    if (j == '&') return std::make_shared<ast::And>(v);
    return std::make_shared<ast::Or>(v);
  }
  bool at(const char* w) { size_t k = i; bool r = eat(w); i = k; return r; }
};
// names are arbitrary identifier letters outside the notation's own
std::string name(int k) { std::string n; for (int i = 0; i < k; i++) { char c = (char)sx_byte("name"); sx_assume((c >= 'a') & (c <= 'z') & (c != 't') & (c != 'f')); n += c; } return n; }
int nleaf;
Expr comparison() {
  static const ast::ComparisonOp O[] = {ast::ComparisonOp::GE, ast::ComparisonOp::GT, ast::ComparisonOp::LE, ast::ComparisonOp::LT};
#ifdef ANY
  { auto op = O[sx_choose("comparison", 4)]; double c = sx_double("constant"); sx_assume(c == c); return ast::Predicate{name(1), op, c}; }
#endif
#ifdef SMALL
  return ast::Predicate{name(1), O[sx_choose("comparison", 4)], -0.25};
#endif
  static const double C[] = {0.0, 2.5, -1.0, 0.1, 1e21, 1e-7, 123456789.125, -0.30000000000000004, 4294967296.0};
  auto op = O[sx_choose("comparison", 4)]; double c = C[sx_choose("constant", 9)];
  return ast::Predicate{name(2), op, c};
}
Expr plain() { switch (nleaf++ % 3) { case 0: return ast::Predicate{name(1), ast::ComparisonOp::GT, 1.5}; case 1: return ast::Predicate{"q", ast::ComparisonOp::LE, -2.0}; default: return ast::Const{true}; } }
ast::Interval anInterval() {
#ifdef ANY
  if (sx_choose("default", 2)) return ast::Interval{};
  double a = sx_double("low"), b = sx_double("high"); sx_assume((a >= 0) & (a < b)); return ast::Interval(a, b);
#endif
  switch (sx_choose("interval", INTERVALS)) {
    case 0: return ast::Interval{}; case 1: return ast::Interval(0.0, 2.0); case 2: return ast::Interval(0.5, INF); case 3: return ast::Interval(1ull, 2ull);
    case 4: return ast::Interval(0.0, INF); case 5: return ast::Interval(0.1, 0.30000000000000004); default: return ast::Interval(0ull, 0ull);
  }
}
Expr gen(int depth) {
  if (!depth) { switch (sx_choose("leaf", 3)) { case 0: return ast::Const{true}; case 1: return ast::Const{false}; default: return comparison(); } }
  size_t o = sx_choose("operator", 8);
  static const int AR[] = {1, 2, 2, 1, 1, 2, 3, 3};
  int deep = AR[o] > 1 ? (int)sx_choose("deep_operand", AR[o]) : 0;
  std::vector<Expr> a; for (int i = 0; i < AR[o]; i++) { if (i == deep) { Expr e = gen(depth - 1); a.push_back(e); } else { Expr e = plain(); a.push_back(e); } }
  switch (o) {
    case 0: return std::make_shared<ast::Not>(a[0]);
    case 1: case 6: return std::make_shared<ast::And>(a);
    case 2: case 7: return std::make_shared<ast::Or>(a);
    case 3: { auto iv = anInterval(); return std::make_shared<ast::Always>(a[0], iv); }
    case 4: { auto iv = anInterval(); return std::make_shared<ast::Eventually>(a[0], iv); }
    default: { auto iv = anInterval(); return std::make_shared<ast::Until>(a[0], a[1], iv); }
  }
}
int sameShown(const ast::Interval& a, const ast::Interval& b) { auto x = a.as_double(), y = b.as_double(); return same(x.first, y.first) & same(x.second, y.second); }
int shown(const Expr& a, const Expr& b) {                  // equality; an interval counts by its bounds
  if (a.index() != b.index()) return 0;
  switch (a.index()) {
    case 2: return shown(std::get<2>(a)->arg, std::get<2>(b)->arg);
    case 3: case 4: {
      auto& p = a.index() == 3 ? std::get<3>(a)->args : std::get<4>(a)->args; auto& q = a.index() == 3 ? std::get<3>(b)->args : std::get<4>(b)->args;
      if (p.size() != q.size()) return 0;
      int ok = 1; for (size_t i = 0; i < p.size(); i++) ok &= shown(p[i], q[i]);
      return ok;
    }
    case 5: return shown(std::get<5>(a)->arg, std::get<5>(b)->arg) & sameShown(std::get<5>(a)->interval, std::get<5>(b)->interval);
    case 6: return shown(std::get<6>(a)->arg, std::get<6>(b)->arg) & sameShown(std::get<6>(a)->interval, std::get<6>(b)->interval);
    case 7: { auto &p = *std::get<7>(a), &q = *std::get<7>(b); return shown(p.args.first, q.args.first) & shown(p.args.second, q.args.second) & sameShown(p.interval, q.interval); }
    default: return eq(a, b);
  }
}
// many operands, deep nesting, long names
#ifdef WIDE
Expr wide() {
  static const int N[] = {5, 9, 17, 40};
  int n = N[sx_choose("size", 4)], at = (int)sx_choose("free", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  int what = (int)sx_choose("what", 4);
  char c = (char)sx_byte("name"); sx_assume((c >= 'a') & (c <= 'z') & (c != 't') & (c != 'f'));
  if (what < 2) {
    std::vector<Expr> v;
    for (int i = 0; i < n; i++) { std::string nm(1, 'p'); nm += i == at ? c : 'q'; if (i % 6 == 5) v.push_back(std::make_shared<ast::Not>(Expr{ast::Predicate{nm, ast::ComparisonOp::LT, 0.5 * i}})); else v.push_back(ast::Predicate{nm, ast::ComparisonOp::GE, (double)(i - 3)}); }
    if (what) return std::make_shared<ast::And>(v);
    return std::make_shared<ast::Or>(v);
  }
  if (what == 2) {
    std::string nm((size_t)n * 5, 'x'); nm[(size_t)at] = c; nm[0] = 'y';
    return std::make_shared<ast::Not>(Expr{ast::Predicate{nm, ast::ComparisonOp::LE, 2.0}});
  }
  Expr e = ast::Predicate{std::string(1, c), ast::ComparisonOp::GT, 1.0};
  for (int i = 0; i < n; i++) {
    Expr q = ast::Predicate{"q", ast::ComparisonOp::LE, (double)i};
    switch ((i + at) % 6) {
      case 0: e = std::make_shared<ast::Not>(e); break;
      case 1: e = std::make_shared<ast::And>(std::vector<Expr>{e, q}); break;
      case 2: e = std::make_shared<ast::Always>(e, ast::Interval(0.5, 1.0 + i)); break;
      case 3: e = std::make_shared<ast::Until>(q, e, ast::Interval(1.0, INF)); break;
      case 4: e = std::make_shared<ast::Or>(std::vector<Expr>{q, e, q}); break;
      default: e = std::make_shared<ast::Eventually>(e, ast::Interval{}); break;
    }
  }
  return e;
}
#endif
}
extern "C" void sx_main() {
  nleaf = 0;
#ifdef WIDE
  Expr e = wide();
#else
  int depth = sx_choose("bare", 2) ? 0 : DEPTH;
  Expr e = gen(depth);
#endif
  std::string t = fmt::format("{}", e);
  Reader r{t}; Expr back = ast::Const{false}; bool read = true;
  try { back = r.formula(); r.sp(); if (r.i != t.size()) read = false; } catch (const Unread&) { read = false; }
  sx_check(read, "readable"); if (!read) return;
  sx_check(shown(e, back), "shows-the-formula");
  std::string u;
  switch (e.index()) {                                     // printed as itself, or as a formula
    case 0: u = fmt::to_string(std::get<0>(e)); break; case 1: u = fmt::to_string(std::get<1>(e)); break; case 2: u = fmt::to_string(*std::get<2>(e)); break;
    case 3: u = fmt::to_string(*std::get<3>(e)); break; case 4: u = fmt::to_string(*std::get<4>(e)); break; case 5: u = fmt::to_string(*std::get<5>(e)); break;
    case 6: u = fmt::to_string(*std::get<6>(e)); break; default: u = fmt::to_string(*std::get<7>(e)); break;
  }
  sx_check(sameStr(t, u), "same-text");
  // sent to a stream
  { std::ostringstream o; ::operator<<(static_cast<std::ostream&>(o), e); u = o.str(); }
  sx_check(sameStr(t, u), "same-streamed");
  sx_reach("printed");
}
