// Large specifications: sizes far beyond the exhaustive configurations, with few arbitrary bytes.
// PART selects the property's emphasis; shapes are choices, marked bytes are arbitrary.
#include "refparse.h"
#ifndef DEEP
#define DEEP 0
#endif
namespace {
std::string num(int i) { return std::to_string(i); }
char ident() { char c = (char)sx_byte("ident"); sx_assume(Ref::other(c)); return c; }
char digit() { char c = (char)sx_byte("digit"); sx_assume(Ref::digit(c)); return c; }
char space() { char c = (char)sx_byte("space"); sx_assume(Ref::space(c)); return c; }
char any() { return (char)sx_byte("b"); }
template <size_t M> int pick(const char* n, const int (&a)[M]) { return a[sx_choose(n, M)]; }
std::string fill(size_t n, char c) { return std::string(n, c); }
// a name of k bytes, its byte at `at` arbitrary
std::string longName(size_t k, size_t at, char c) { std::string s; for (size_t i = 0; i < k; i++) s += "abcdefghijklmnopqrstuvwxyz_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 63]; s[at] = c; return s; }
[[maybe_unused]] void operands() {          // many operands, one of them with an arbitrary digit
  static const int N[] = {5, 8, 9, 17, 33, 70, 130};
  int n = pick("operands", N); bool con = sx_choose("and", 2);
  int at = (int)sx_choose("position", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  std::string t = std::string("(define-formula p (> a 1))(assert m (") + (con ? "and" : "or");
  for (int i = 0; i < n; i++) {
    t += ' ';
    if (i == at) { t += "(<= z "; t += digit(); t += ")"; }
    else if (i % 4 == 3) t += "(not p)"; else if (i % 5 == 4) t += "p"; else { t += "(> s"; t += num(i); t += " "; t += num(i); t += ")"; }
  }
  t += "))"; agree(t.data(), t.size());
}
[[maybe_unused]] void names() {             // long names, as formula, assertion and signal
  static const int N[] = {15, 16, 31, 32, 64, 130, 260};
  size_t k = (size_t)pick("length", N);
  int w = (int)sx_choose("position", 3); size_t at = w == 0 ? 0 : w == 1 ? k / 2 : k - 1;
  char c = w ? ident() : (char)sx_byte("head"); if (!w) sx_assume(Ref::first(c));
  std::string n = longName(k, at, c), r = longName(k, at, sx_choose("same", 2) ? c : 'q');
  int use = (int)sx_choose("use", 3);
  std::string t = use == 2 ? "(assert " + r + " (until (> " + n + " 1) (< 2 " + r + ")))" : "(define-formula " + n + " (> a 1))(assert m (not " + r + "))";
  if (use == 1) t = "(define-formula " + n + " (> a 1))(define-formula " + r + " (< b 1))(assert " + n + " " + n + ")";
  agree(t.data(), t.size());
}
[[maybe_unused]] void commands() {          // many commands, the last refers to (or repeats) a name with arbitrary digits
  static const int N[] = {10, 24, 40, 70};
  int n = pick("commands", N), kind = (int)sx_choose("kind", 3);
  std::string t;
  for (int i = 0; i < n; i++) {
    t += kind == 2 ? "(assert d" : "(define-formula d"; t += num(10 + i); t += ' ';
    if (kind != 2 && i > 2 && i % 3 == 0) { t += "(or d"; t += num(10 + i / 2); t += " d"; t += num(10 + i - 1); t += ")"; } else { t += "(> x"; t += num(i); t += " 1)"; }
    t += ")\n";
  }
  std::string ref = "d"; ref += digit(); ref += digit();
  t += kind == 0 ? "(assert m (until " + ref + " d10))" : kind == 1 ? "(define-formula " + ref + " (not d10))" : "(assert " + ref + " true)";
  agree(t.data(), t.size());
}
[[maybe_unused]] void nesting() {           // every operator in turn, nested
  static const char* const OPEN[] = {"(not ", "(and true ", "(or (> a 1) ", "(implies p ", "(iff false ", "(xor p ", "(always ", "(eventually ", "(until p ", "("};
  static const char* const CLOSE[] = {")", " p)", ")", ")", ")", ")", ")", ")", ")", ")"};
  static const int N[] = {11, 20, 33};
  int n = pick("depth", N), off = (int)sx_choose("first", 10), miss = (int)sx_choose("parentheses", 3);
  std::string t = "(define-formula p (> a 1))(assert m ";
  for (int i = 0; i < n; i++) t += OPEN[(i + off) % 10];
  t += "(>= x "; t += digit(); t += ")";
  for (int i = n; i-- > (miss == 1 ? 1 : 0);) t += CLOSE[(i + off) % 10];
  if (miss == 2) t += ')';
  t += ')'; agree(t.data(), t.size());
}
[[maybe_unused]] void numerals() {          // many digits, one arbitrary
  static const int N[] = {9, 10, 11, 16, 18, 19, 20, 25, 40};
  size_t k = (size_t)pick("digits", N); int form = (int)sx_choose("form", 6);
  int w = (int)sx_choose("position", 2); size_t at = w ? k - 1 : 0;
  std::string s; for (size_t i = 0; i < k; i++) s += (char)('0' + (i * 7 + 3) % 10);
  s[at] = digit();
  std::string t = form == 0 ? s : form == 1 ? "0." + s : form == 2 ? s + ".5" : form == 3 ? fill(k, '0') + s : form == 4 ? s + "e-" + num((int)k) : "1." + fill(k, '0') + s + "E1";
  t = sx_choose("constant_first", 2) ? "(assert m (< " + t + " x))" : "(assert m (< x " + t + "))";
  agree(t.data(), t.size());
}
[[maybe_unused]] void gaps() {              // long runs of white space and comments
  static const int N[] = {9, 33, 130, 300, 1100};
  size_t k = (size_t)pick("length", N); int form = (int)sx_choose("form", 6), where = (int)sx_choose("where", 5);
  std::string g;
  switch (form) {
    case 0: g = fill(k, ' '); g[k / 2] = space(); break;
    case 1: g = fill(k, '\n'); g[k - 1] = space(); break;
    case 2: g = ";" + fill(k, 'x') + "\n"; g[k / 2] = any(); break;
    case 3: g = ";" + fill(k, ')') + "\n"; g[k] = any(); break;
    case 4: for (size_t i = 0; i < k / 3; i++) g += i % 2 ? ";(\n" : "; \r\n"; g[g.size() / 2] = any(); break;
    default: for (size_t i = 0; i < k / 2; i++) g += i % 2 ? "\t\r" : "\f\v"; g[0] = space(); break;
  }
  const char* pre[] = {"", "(assert m ", "(assert m (> x", "(assert", "(assert m true)"};
  const char* post[] = {"(assert m true)", "(or true p0))", " 2.5))", " m true)", ""};
  std::string t = "(define-formula p0 true)"; if (where == 0) t = "";
  t += pre[where]; t += g; t += post[where];
  agree(t.data(), t.size());
}
[[maybe_unused]] void tails() {             // a long specification with one arbitrary byte put into it near its end or in its middle
  static const int N[] = {6, 30};
  int n = pick("commands", N), where = (int)sx_choose("where", 8);
  std::string t;
  for (int i = 0; i < n; i++) { t += i % 2 ? "(assert a" : "(define-formula f"; t += num(i); t += " (until (> x 1.5) (iff true (< 2 y))))"; if (i % 3 == 0) t += " ; c\n"; }
  size_t z = t.size(), back[] = {0, 1, 2, 3, 5, z / 2, z / 3, z};
  t.insert(z - back[where], 1, any());
  agree(t.data(), t.size());
}
}  // namespace
extern "C" void sx_main() {
#if PART == 1
  switch (sx_choose("shape", 3)) { case 0: operands(); break; case 1: nesting(); break; default: names(); }
#elif PART == 2
  switch (sx_choose("shape", 2)) { case 0: tails(); break; default: nesting(); }
#elif PART == 3
  numerals();
#elif PART == 4
  gaps();
#else
  switch (sx_choose("shape", 2)) { case 0: commands(); break; default: names(); }
#endif
}
