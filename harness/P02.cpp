// P02: a well-formed specification with up to DEL bytes cut out and INS arbitrary bytes put in, anywhere.
#include "refparse.h"
#ifndef DEL
#define DEL 1
#endif
#ifndef INS
#define INS 1
#endif
static const char* const SPEC[] = {
#if SET == 0
  "(define-formula p(> x 1))(assert m(and p p))",
  "(assert m(not(or true false(<= 2.5 y))))",
#elif SET == 1
  "(assert m(until true(implies false true)))",
  "(assert m(always(xor true false)))(assert n true)",
  "(assert m(iff(eventually true)false))",
#elif SET == 2
  "(define-formula p(< x 1e1))(define-formula q p)(assert m((p)))",
  "(assert m(and(or true false)(not true)))(assert n(>= 3. y))",
#else
  "(assert m (and a b))", "(assert m (or (> x 1)))", "(assert m (not true false))", "(assert m (implies true))", "(assert m (until true true true))",
  "(assert m (always))", "(assert m (eventually true true))", "(assert m (iff))", "(assert m (xor true))", "(assert m true false)", "(assert m)", "(assert (> x 1))", "(assert true)", "()",
  "(assert m true) (", "(assert m true))", "(assert m true)(assert m2 true", "(assert m true assert n true)", "((assert m true))", "(assert m (> x 1 2))", "(assert m (> x))", "(assert m (> 1 2))",
  "(assert m (> x y))", "(assert m (= x 1))", "(assert m (> (x) 1))", "(assert m (true true))", "(assert m ((> x 1) true))", "(assert m (> x 1) ())", "(assert m ())", "(assert m (()))",
  "assert m true", "true", "(define-formula m)", "(define m true)", "(defineformula m true)", "(assertm true)", "(assert 1 true)", "(assert m 1)", "(assert m (not 1))", "(assert m (and true 1))",
  "(assert m (always[0,1] true))", "(assert m (always 0 1 true))", "(assert m -1)", "(assert m (> x -1))", "(assert m (>> x 1))", "(assert m (<> x 1))", "(assert m (== x 1))", "(assert m (> x 0x1))", "(assert m (> x 1f))",
  "(assert m (> x inf))", "(assert m (> x nan))", "(assert m (> x .5))", "(assert m (> x 1e))", "(assert m (> x 1e+))", "(assert m (> x 1.2.3))", "(assert m (> x 1_0))", "(assert m (nott true))", "(assert m (no true))",
  "(assert m (not))", "(assert m (not not))", "(assert m (and and and))", "(assert m (andtrue true))", "(assert m and true true)", "(assert not true)", "(assert assert true)", "(define-formula true (> x 1))(assert m true)",
#endif
};
extern "C" void sx_main() {
  size_t which = sx_choose("specification", sizeof(SPEC) / sizeof(*SPEC));
  std::string s = SPEC[which];
  size_t at = sx_choose("position", (s.size() + STEP) / STEP) * STEP;
  size_t del = 0, ins = 0;
#if DEL > 0
  del = sx_choose("deleted", DEL + 1);
#endif
#if INS > 0
  ins = sx_choose("inserted", INS + 1);
#endif
  if (at + del > s.size()) return;
  std::string t = s.substr(0, at);
  for (size_t i = 0; i < ins; i++) t += (char)sx_byte("b");
  t += s.substr(at + del);
  agree(t.data(), t.size());
}
