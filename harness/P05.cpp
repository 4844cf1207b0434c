// P05: arbitrary bytes, alone or inside a specification: result or error, the same every time, no undefined behaviour.
#include "refparse.h"
#ifndef L
#define L 4
#endif
static const char* const FRAME[][2] = {
  {"", ""},
  {"(assert m ", ")"}, {"(assert m (", "))"}, {"(assert m (> x ", "))"}, {"(assert m (and true ", "))"}, {"(assert ", " true)"}, {"(define-formula f(<= ", "2))(assert m f)"},
  {"(assert m true)", ""}, {"(assert m true", ""}, {"(as", ""}, {"(assert m (", ""}, {"(assert m (not (always (until true ", ""}, {"; c", "(assert m true)"}, {"(assert m (> x 1", ""},
};
extern "C" void sx_main() {
#ifdef FRAMES
  size_t f = 1 + sx_choose("frame", FRAMES);
#else
  size_t f = 0;
#endif
  size_t n = sx_choose("length", L + 1);
  std::string t = FRAME[f][0]; for (size_t i = 0; i < n; i++) t += (char)sx_byte("b"); t += FRAME[f][1];
  char* s = new char[t.size() ? t.size() : 1];        // exactly the input, so that reading past it is seen
  memcpy(s, t.data(), t.size());
  bool first = agree(s, t.size());
  Parsed again = parse(s, t.size());
  sx_check(again.ok == first, "same-outcome");
  delete[] s;
}
