// P05: nesting of any depth ends in a result or an error; moderate depths are accepted and mean what they spell.
#include "refparse.h"
extern "C" void sx_main() {
  static const char* const OPEN[] = {"(", "(not ", "(and true ", "(until true "};
  size_t op = sx_choose("operator", 4);
  std::string t = "(assert m ";
  for (int i = 0; i < DEEP; i++) t += OPEN[op];
#if DEEP < 1000
  char d = (char)sx_byte("digit"); sx_assume(Ref::digit(d));
  t += "(> x "; t += d; t += ")";
  for (int i = 0; i < DEEP; i++) t += ')';
  t += ')';
  agree(t.data(), t.size());
#else
  t += (char)sx_byte("b");
  for (int i = 0; i < DEEP; i++) t += ')';
  t += ')';
  Parsed p = parse(t.data(), t.size());
  sx_reach(p.ok ? "accepted" : "rejected");
#endif
}
