// An independent reading of the specification language, written from its documentation: recursive descent over the bytes.
#pragma once
#include "tree.h"
#include "signal_tl/parser.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
namespace {
struct Bad {};
struct Ref {
  const char* s; size_t n; size_t i = 0;
  std::vector<std::pair<std::string, Expr>> formulas, assertions;
  bool either = false;                              // contains a numeral that may be rejected or rounded (beyond long, or subnormal)
  static int space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
  static int digit(char c) { return (c >= '0') & (c <= '9'); }
  static int alpha(char c) { char d = (char)(c | 32); return (d >= 'a') & (d <= 'z'); }
  static int first(char c) { return alpha(c) | (c == '_'); }
  static int other(char c) { return alpha(c) | digit(c) | (c == '_'); }
  bool at(char c) const { return i < n && sx_fork(s[i] == c); }
  bool is(int (*f)(char)) const { return i < n && sx_fork(f(s[i])); }
  void skip() {
    for (;;) {
      if (is(space)) { i++; continue; }
      if (!at(';')) return;
      while (i < n) if (sx_fork(s[i++] == '\n')) break;
    }
  }
  void expect(char c) { if (!at(c)) throw Bad{}; i++; skip(); }
  std::string word() {
    if (!is(first)) throw Bad{};
    std::string w; do w += s[i++]; while (is(other));
    return w;
  }
  static bool isWord(const std::string& w, const char* k) { size_t m = strlen(k); if (w.size() != m) return false; int ok = 1; for (size_t j = 0; j < m; j++) ok &= w[j] == k[j]; return sx_fork(ok); }
  std::string name() { std::string w = word(); skip(); return w; }
  double number() {
    if (!is(digit)) throw Bad{};
    std::string t; bool real = false;
    while (is(digit)) t += s[i++];
    size_t back = i;
    if (at('.')) {                                  // digits '.' digits, or digits '.' exponent
      i++;
      if (is(digit)) { real = true; t += '.'; while (is(digit)) t += s[i++]; }
      else if (!(at('e') || at('E'))) i = back;
    }
    if (at('e') || at('E')) {
      i++; t += 'e'; real = true;
      if (at('+')) { i++; } else if (at('-')) { i++; t += '-'; }
      if (!is(digit)) throw Bad{};
      while (is(digit)) t += s[i++];
    }
    skip();
    errno = 0;
    double r = 0;
    if (!real) { r = (double)strtol(t.c_str(), nullptr, 10); if (errno != ERANGE) return r; either = true; errno = 0; }
    r = strtod(t.c_str(), nullptr);
    if (errno == ERANGE) { if (sx_fork(r > 1)) throw Bad{}; either = true; }
    return r;
  }
  Expr lookup(const std::string& w) {
    for (auto& [k, e] : formulas) { int same = sameStr(k, w); if (sx_fork(same)) return e; }
    throw Bad{};
  }
  Expr named(const std::string& w) {
    if (isWord(w, "true")) return ast::Const{true};
    if (isWord(w, "false")) return ast::Const{false};
    return lookup(w);
  }
  Expr term() {
    if (at('(')) { i++; skip(); Expr e = expression(); expect(')'); return e; }
    return named(name());
  }
  Expr comparison() {
    bool less = at('<'), orEqual; i++;
    orEqual = at('=');
    if (orEqual) i++; else if (at(less ? '<' : '>')) throw Bad{};
    skip();
    std::string x; double c; bool flip = false;
    if (is(first)) { x = name(); c = number(); } else { c = number(); x = name(); flip = true; }
    bool up = less == flip;                         // "greater than" after normalisation to (x ~ c)
    return ast::Predicate{x, up ? (orEqual ? ast::ComparisonOp::GE : ast::ComparisonOp::GT) : (orEqual ? ast::ComparisonOp::LE : ast::ComparisonOp::LT), c};
  }
  Expr expression() {
    if (at('<') || at('>')) return comparison();
    if (at('(')) return term();
    std::string w = name();
    if (isWord(w, "not")) return Not(term());
    bool con = isWord(w, "and");
    if (con || isWord(w, "or")) {
      std::vector<Expr> v;
      while (!at(')')) v.push_back(term());
      if (v.size() < 2) throw Bad{};
      if (con) return And(v);
      return Or(v);
    }
    if (isWord(w, "implies")) { Expr a = term(), b = term(); return Implies(a, b); }
    if (isWord(w, "iff")) { Expr a = term(), b = term(); return Iff(a, b); }
    if (isWord(w, "xor")) { Expr a = term(), b = term(); return Xor(a, b); }
    if (isWord(w, "always")) return Always(term());
    if (isWord(w, "eventually")) return Eventually(term());
    if (isWord(w, "until")) { Expr a = term(), b = term(); return Until(a, b); }
    return named(w);
  }
  bool keyword(const char* k) {                     // a command word; not a prefix of a longer one
    size_t m = strlen(k); if (i + m > n) return false;
    int ok = 1; for (size_t j = 0; j < m; j++) ok &= s[i + j] == k[j];
    if (!sx_fork(ok)) return false;
    if (i + m < n && sx_fork(other(s[i + m]))) return false;
    i += m; skip(); return true;
  }
  void command() {
    expect('(');
    bool def;
    if (keyword("assert")) def = false; else if (keyword("define-formula")) def = true; else throw Bad{};
    std::string id = name(); Expr e = term();
    auto& where = def ? formulas : assertions;
    for (auto& [k, x] : where) { int same = sameStr(k, id); if (sx_fork(same)) throw Bad{}; }
    where.emplace_back(id, e);
    expect(')');
  }
  void spec() { skip(); while (i < n) command(); }
};
struct Parsed { bool ok = false; std::unique_ptr<Specification> spec; };
[[maybe_unused]] Parsed parse(const char* s, size_t n) {
  Parsed p;
  try { p.spec = parser::from_string(std::string_view(s, n)); p.ok = true; } catch (const std::exception&) {}
  return p;
}
[[maybe_unused]] int sameMap(const std::map<std::string, Expr>& m, const std::vector<std::pair<std::string, Expr>>& r) {
  if (m.size() != r.size()) return 0;
  int ok = 1;
  for (auto& [k, e] : r) { int hit = 0; for (auto& [k2, e2] : m) hit |= sameStr(k, k2) & eq(e, e2); ok &= hit; }
  return ok;
}
// the real parser against the reading above
[[maybe_unused]] bool agree(const char* s, size_t n) {
  Parsed p = parse(s, n);
  Ref r{s, n}; bool good = true;
  try { r.spec(); } catch (const Bad&) { good = false; }
  if (good && r.either && !p.ok) { sx_reach("rejected"); return false; }
  sx_check(p.ok == good, good ? "well-formed-accepted" : "malformed-rejected");
  if (!good || !p.ok) { sx_reach("rejected"); return false; }
  sx_check(!!p.spec, "result"); if (!p.spec) return false;
  sx_check(sameMap(p.spec->formulas, r.formulas), "formulas");
  sx_check(sameMap(p.spec->assertions, r.assertions), "assertions");
  sx_reach("accepted");
  return true;
}
// fills the '?' of a template with arbitrary bytes
struct Text { char* s; size_t n; Text(const char* t) { n = strlen(t); s = new char[n ? n : 1]; for (size_t i = 0; i < n; i++) s[i] = t[i] == '?' ? (char)sx_byte("b") : t[i]; } ~Text() { delete[] s; } };
}  // namespace
extern "C" {
// source positions only occur in error messages
__attribute__((used)) std::string sx_position_text(const void*) { return "<position>"; }
}
