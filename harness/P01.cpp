// P01: every operator, nesting and reference of a well-formed specification.
// Words are spelt with arbitrary identifier bytes, so a reference may or may not name an earlier formula.
#include "refparse.h"
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef W
#define W 1
#endif
static std::string out;
static int nleaf;
static char body(const char* n, bool head) { char c = (char)sx_byte(n); sx_assume(head ? Ref::first(c) : Ref::other(c)); return c; }
static void word(const char* n, int k) { out += body(n, true); for (int i = 1; i < k; i++) out += body(n, false); }
static const char* const OPS[] = {"not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until", "and", "or", "("};
static const int ARITY[] = {1, 2, 2, 2, 2, 2, 1, 1, 2, 3, 3, 1};
static void comparison() {
  static const char* const C[] = {"<", "<=", ">", ">="};
  out += "("; out += C[sx_choose("comparison", 4)];
  bool flip = sx_choose("constant_first", 2);
  char d = (char)sx_byte("digit"); sx_assume(Ref::digit(d));
  if (flip) { out += ' '; out += d; out += ".5 "; word("signal", W); } else { out += ' '; word("signal", W); out += ' '; out += d; }
  out += ")";
}
static void plain() { static const char* const L[] = {"(> u 1)", "(<= v 2)", "true", "(< 3 w)"}; out += L[nleaf++ % 4]; }
static void leaf() {
  switch (sx_choose("leaf", 4)) {
    case 0: comparison(); break;
    case 1: word("use", W); break;
    case 2: out += "false"; break;
    default: out += "true"; break;
  }
}
static void gen(int depth) {
  if (!depth) return leaf();
  size_t o = sx_choose("operator", 12);
  int deep = (int)sx_choose("deep_operand", ARITY[o]);
  out += '('; if (o < 11) out += OPS[o];
  for (int i = 0; i < ARITY[o]; i++) { out += ' '; if (i == deep) gen(depth - 1); else plain(); }
  out += ')';
}
extern "C" void sx_main() {
  out.clear(); nleaf = 0;
#ifdef REFS
  // several commands in order, each using earlier names; any words
  for (int i = 0; i < REFS; i++) {
    bool def = i == 0 || sx_choose("command", 2);
    out += def ? "(define-formula " : "(assert ";
    word("name", W); out += ' ';
    if (i == 0) out += "(< p 1)"; else if (i == 1) { out += "(not "; word("use", W); out += ")"; } else { out += "(and "; word("use", W); out += ' '; word("use", W); out += ")"; }
    out += ")";
  }
#else
  out += "(define-formula "; word("name", W); out += " (until (>= a 7) (< b 0)))(assert m ";
  gen(DEPTH); out += ")";
#endif
  agree(out.data(), out.size());
}
