// P04: white space and comments between tokens.
#include "refparse.h"
#ifndef GAP
#define GAP 2
#endif
static const char* const TOK[] = {"(", "define-formula", "p", "(", "or", "(", "<", "x", "1", ")", "(", ">=", "2.5", "y", ")", "true", ")", ")", "(", "assert", "m", "(", "until", "p", "(", "not", "p", ")", ")", ")"};
static const int NT = sizeof(TOK) / sizeof(*TOK);
static char sp() { char c = (char)sx_byte("space"); sx_assume(Ref::space(c)); return c; }
static char nonl() { char c = (char)sx_byte("comment"); sx_assume(c != '\n'); return c; }
static bool last(char c) { return Ref::other(c) || c == '.'; }
extern "C" void sx_main() {
  // one gap (also before the first and after the last token) is arbitrary white space or a comment; the others are minimal
  int g = (int)sx_choose("gap", NT + 1);
  std::string s, plain;
  for (int i = 0; i <= NT; i++) {
    if (i && i < NT) {
      bool need = last(TOK[i - 1][strlen(TOK[i - 1]) - 1]) && Ref::other(TOK[i][0]);
      if (need) { plain += ' '; if (g != i) s += ' '; }
    }
    if (g == i) {
      bool any = false;
      size_t before = sx_choose("white_space_before", GAP + 1);
      for (size_t k = 0; k < before; k++) { s += sp(); any = true; }
      if (sx_choose("comment", 2)) {
        size_t len = sx_choose("comment_length", GAP + 2);
        s += ';'; for (size_t k = 0; k < len; k++) s += nonl();
        bool open = i == NT && sx_choose("unterminated", 2);
        if (!open) { s += '\n'; size_t after = sx_choose("white_space_after", GAP); for (size_t k = 0; k < after; k++) s += sp(); }
        any = true;
      }
      if (!any && i && i < NT && last(TOK[i - 1][strlen(TOK[i - 1]) - 1]) && Ref::other(TOK[i][0])) return;   // a separator is needed here
    }
    if (i < NT) { s += TOK[i]; plain += TOK[i]; }
  }
  Parsed a = parse(plain.data(), plain.size()), b = parse(s.data(), s.size());
  sx_check(a.ok, "plain-accepted"); sx_check(b.ok, "spaced-accepted");
  if (!a.ok || !b.ok) return;
  sx_check((a.spec->formulas.size() == 1) & (b.spec->formulas.size() == 1) & (a.spec->assertions.size() == 1) & (b.spec->assertions.size() == 1), "same-names");
  if (b.spec->formulas.size() != 1 || b.spec->assertions.size() != 1 || a.spec->formulas.size() != 1 || a.spec->assertions.size() != 1) return;
  sx_check(sameStr(b.spec->formulas.begin()->first, "p") & sameStr(b.spec->assertions.begin()->first, "m"), "same-names");
  sx_check(eq(a.spec->formulas.begin()->second, b.spec->formulas.begin()->second) & eq(a.spec->assertions.begin()->second, b.spec->assertions.begin()->second), "same-meaning");
  sx_reach("compared");
}
