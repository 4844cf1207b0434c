// P06: which names a specification defines and may use.
#include "refparse.h"
static char body(int head) { char c = (char)sx_byte("name"); sx_assume(head ? Ref::first(c) : Ref::other(c)); return c; }
static std::string word(int k) { std::string w; for (int i = 0; i < k; i++) w += body(i == 0); return w; }
static const char* const PRE[] = {"a", "A", "not", "true", "assert", "until", "_", "and", "define"};
static std::string tricky(int n) { std::string w = PRE[sx_choose("prefix", n)]; size_t k = sx_choose("suffix", 2); for (size_t i = 0; i < k; i++) w += body(0); return w; }
extern "C" void sx_main() {
  std::string t;
#if MODE == 0       // two definitions (formula or assertion, any names), then a use
  bool d1 = sx_choose("first", 2), d2 = sx_choose("second", 2);
  std::string a = word(W), b = word(W), c = word(W);
  t = std::string(d1 ? "(define-formula " : "(assert ") + a + " (> x 1))" + (d2 ? "(define-formula " : "(assert ") + b + " (< x 2))(assert m (not " + c + "))";
  agree(t.data(), t.size());
#elif MODE == 1     // names that start with (or are) keywords
  std::string a = tricky(9), b = tricky(9);
  t = "(define-formula " + a + " (> x 1))(assert m (or " + b + " false))";
  agree(t.data(), t.size());
#elif MODE == 2     // a second specification does not see the first; a rejected first one leaves nothing behind
  std::string a = word(1), b = word(1), c = word(1);
  t = "(define-formula " + a + " (> x 1))(assert " + b + " " + a + ")" + (sx_choose("broken", 2) ? "(assert" : "");
  agree(t.data(), t.size());
  std::string u = "(define-formula " + c + " (< y 2))(assert " + b + " (not " + word(1) + "))";
  agree(u.data(), u.size());
  agree(t.data(), t.size());
#else               // use before definition, in itself, and in predicate position
  std::string a = word(W), b = word(W);
  size_t k = sx_choose("shape", 4);
  t = k == 0 ? "(assert m " + a + ")(define-formula " + b + " (> x 1))" : k == 1 ? "(define-formula " + a + " (not " + b + "))" :
      k == 2 ? "(define-formula " + a + " (> " + b + " 1))(assert " + b + " (always " + a + "))" : "(define-formula " + a + " (> x 1))(define-formula " + b + " (not " + a + "))(define-formula " + a + b + " " + b + ")";
  agree(t.data(), t.size());
#endif
}
