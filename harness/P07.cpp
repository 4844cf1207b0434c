// P07: a file means what its contents mean.
#include "refparse.h"
extern "C" { const char* sx_file(const char*, unsigned long, int); int sx_file_open(void); }
static const char* const FRAME[][2] = {{"", ""}, {"(define-formula p(> x 1))(assert m ", ")"}, {"(assert m (not true))", ""}, {"(assert m (or true ", " false))\n; end"}};
static const char OLD[] = "(assert m (not true))(assert old true)";
extern "C" void sx_main() {
  size_t f = sx_choose("frame", 4), n = sx_choose("length", (f ? L : L0) + 1);
  bool exists = f || sx_choose("exists", 2);
  std::string t = FRAME[f][0]; for (size_t i = 0; i < n; i++) t += (char)sx_byte("b"); t += FRAME[f][1];
  // what the file held before makes no difference
  if (sx_choose("earlier", 2)) { try { parser::from_file(sx_file(OLD, sizeof OLD - 1, 1)); } catch (const std::exception&) { sx_check(false, "old-file-read"); } }
  std::string path = sx_file(t.data(), t.size(), exists);
  Parsed p;
  try { p.spec = parser::from_file(path); p.ok = true; } catch (const std::exception&) {}
  sx_check(sx_file_open() == 0, "file-closed");
  if (!exists) { sx_check(!p.ok, "missing-file-rejected"); sx_reach("missing"); return; }
  Parsed q = parse(t.data(), t.size());
  sx_check(p.ok == q.ok, "same-outcome");
  if (!p.ok || !q.ok) { sx_reach("rejected"); return; }
  std::vector<std::pair<std::string, Expr>> fs(q.spec->formulas.begin(), q.spec->formulas.end()), as(q.spec->assertions.begin(), q.spec->assertions.end());
  sx_check(sameMap(p.spec->formulas, fs), "same-formulas"); sx_check(sameMap(p.spec->assertions, as), "same-assertions");
  sx_reach("accepted");
}
