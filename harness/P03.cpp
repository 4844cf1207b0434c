// P03: direction of a comparison and exact value of its constant.
#include "refparse.h"
static char any() { return (char)sx_byte("b"); }
static char digit() { char c = (char)sx_byte("digit"); sx_assume(Ref::digit(c)); return c; }
static const char* const NUM[] = {
  // d: any digit, ?: any byte
  "d", "dd", "d.d", "d.dd", "dde1", "ded", "d.ded", "d.e1", "dE-d", "d.de+d", "d?d", "d??", "0.00d", "00d", "dd.e-2", "1e1d", "de-0d", "d?d",
#ifdef MORE
  "dddddddd", "d.dddddd", "ddd.ddde-1d", "1e2d", "3.e30d", "2?d?d", "1.?e?1", "12345678901234567d", "0.12345678901234567d", "922337203685477580d", "1797693134862315d0e29d",
#endif
  // concrete: nearest double, ranges of long and double
  "0", "0.1", "0.3", "123456789012345678", "9007199254740993", "9007199254740993.0", "9223372036854775807", "9223372036854775808", "0.1000000000000000055511151231257827021181583404541015625", "179769313486231570000e289", "1e308", "1e309", "1e400", "4.9e-324", "1e-400", "2.2250738585072014e-308",
  "2.2250738585072011e-308", "1e-5", "1.", "1.e2", "1e5", "3.14159265358979323846", "1e23", "8.5e22", "0e5", "00.5", "1e00", "1e+05", "1e999999999999",
  "18446744073709551615", "18446744073709551616", "99999999999999999999", "123456789012345678901234567890", "000000000000000000000000000001",
};
extern "C" void sx_main() {
  std::string t = "(assert m (";
#ifdef OPS
  // any operator bytes
  size_t k = sx_choose("operator_bytes", 3);
  for (size_t i = 0; i <= k; i++) t += any();
  t += sx_choose("constant_first", 2) ? " 2.5 x))" : " x 2.5))";
#else
  static const char* const O[] = {"<", "<=", ">", ">="};
  size_t w = sx_choose("numeral", sizeof(NUM) / sizeof(*NUM));
  t += O[w < 3 ? sx_choose("operator", 4) : w % 4];
  bool flip = sx_choose("constant_first", 2);
  if (!flip) t += " x";
  t += ' ';
  for (const char* p = NUM[w]; *p; p++) t += *p == 'd' ? digit() : *p == '?' ? any() : *p;
  t += flip ? " x))" : "))";
#endif
  agree(t.data(), t.size());
}
