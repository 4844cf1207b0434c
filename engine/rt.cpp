// Model of the out-of-line parts of libstdc++/libc that the code under test needs.
// Compiled to bitcode and linked with the code under symbolic execution; every function here is part
// of the trusted base (see DESIGN.md).
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <system_error>
#include <functional>
#include <optional>
#include <variant>
#include <charconv>
#include <map>
#include <list>
#include <unordered_map>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <climits>
#include <cmath>

extern "C" int sx_fork(int);
extern "C" int sx_is_conc(double);
char __libc_single_threaded = 1;
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char* dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const __cow_string& c = o; return *this = c; }

#define EXC_BASE(C) \
  C::C(const std::string& s) : _M_msg(s) {} \
  C::C(const char* s) : _M_msg(s, strlen(s)) {} \
  C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
  C::C(C&& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  C& C::operator=(C&& o) noexcept { _M_msg = o._M_msg; return *this; } \
  C::~C() noexcept {} \
  const char* C::what() const noexcept { return _M_msg._M_p; }
}
// __cow_string's character pointer is public in the header
namespace std {
EXC_BASE(logic_error)
EXC_BASE(runtime_error)
#define EXC_DER(C, B) C::C(const std::string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXC_DER(domain_error, logic_error) EXC_DER(invalid_argument, logic_error) EXC_DER(length_error, logic_error) EXC_DER(out_of_range, logic_error)
EXC_DER(range_error, runtime_error) EXC_DER(overflow_error, runtime_error) EXC_DER(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- red-black trees
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto* q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto* q = x; while (q->_M_right) q = q->_M_right; rm = q; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        auto* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        auto* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- lists and hashing
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t b = n < 2 ? 2 : n; if (b % 2 == 0 && b > 2) b++; _M_next_resize = b; return b; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const {
  if (e + i > _M_next_resize || b < e + i) { std::size_t n = _M_next_bkt((e + i) * 2 + 11); if (n > b) return {true, n}; } return {false, 0};
}
}
std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed) { std::size_t h = seed; const unsigned char* c = (const unsigned char*)p; for (std::size_t i = 0; i < n; i++) h = h * 1099511628211ull + c[i]; return h; }
}  // namespace std

// ---- numbers
static bool isdig(char c) { return (c >= '0') & (c <= '9'); }
static bool issp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static double p10(int e) { double r = 1; for (int i = 0; i < e; i++) r *= 10; return r; }  // exact for e <= 22
extern "C" void sx_unsupported_number(void);
extern "C" {
// the digit's value, or 99 for what no base up to 16 takes
static unsigned digit(char c, int base) { if (base <= 10) return isdig(c) ? (unsigned)(c - '0') : 99; if (isdig(c)) return (unsigned)(c - '0'); if ((c >= 'a') & (c <= 'f')) return (unsigned)(c - 'a') + 10; if ((c >= 'A') & (c <= 'F')) return (unsigned)(c - 'A') + 10; return 99; }
static const char* baseOf(const char* p, int* base) {
  int b = *base; if (b < 0 || b == 1 || b > 16) sx_unsupported_number();
  if (b == 0 || b == 16) if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2], 16) < 16) { *base = 16; return p + 2; }
  if (b == 0) *base = p[0] == '0' ? 8 : 10;
  return p;
}
static int safeDigits(int b) { return b <= 8 ? 20 : b <= 10 ? 18 : 15; }  // this many digits never overflow
long strtol(const char* s, char** end, int base) {
  const char* p = s; while (issp(*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  p = baseOf(p, &base); unsigned B = (unsigned)base; int safe = safeDigits(base);
  if (digit(*p, base) >= B) { if (end) *end = (char*)s; return 0; }
  unsigned long v = 0; bool ov = false; unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX; int n = 0;
  for (unsigned d; (d = digit(*p, base)) < B; p++) { n++;
    if (n > safe) { if (ov || v > (lim - d) / B) ov = true; }
    if (!ov) v = v * B + d; }
  if (end) *end = (char*)p;
  if (ov) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? (long)(0 - v) : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** end, int base) {
  const char* p = s; while (issp(*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  p = baseOf(p, &base); unsigned B = (unsigned)base; int safe = safeDigits(base);
  if (digit(*p, base) >= B) { if (end) *end = (char*)s; return 0; }
  unsigned long v = 0; bool ov = false; int n = 0;
  for (unsigned d; (d = digit(*p, base)) < B; p++) { n++; if (n > safe) { if (ov || v > (ULONG_MAX - d) / B) ov = true; } if (!ov) v = v * B + d; }
  if (end) *end = (char*)p;
  if (ov) { errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
double sx_strtod_conc(const char* s, long n);  // host strtod; only valid on concrete text
int sx_bytes_conc(const char* s, long n);
// one path per value of each digit, for numerals the arithmetic below does not cover
static double pinned(const char* s, long n, unsigned long m) {
  char b[1100]; if (n > 1099) sx_unsupported_number();
  for (long i = 0; i < n; i++) { b[i] = 0; if (isdig(s[i])) { for (char d = '0'; d <= '9'; d++) if (s[i] == d) { b[i] = d; break; } } else if (s[i] == '.') b[i] = '.'; else if (s[i] == '-') b[i] = '-'; else if (s[i] == '+') b[i] = '+'; else b[i] = 'e'; }
  b[n] = 0;
  double r = sx_strtod_conc(b, n);
  if (std::isinf(r) || (r == 0 && m != 0) || (r != 0 && std::fabs(r) < 2.2250738585072014e-308)) errno = ERANGE;
  return r;
}
// Correctly rounded for every numeral with at most 15 significant digits and |exponent| <= 22
// (one exactly representable mantissa, one exactly representable power of ten, one rounding).
double strtod(const char* s, char** end) {
  const char* p = s; while (issp(*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  const char* num = p;
  if (!isdig(*p) && !(*p == '.' && isdig(p[1]))) {
    if (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N') sx_unsupported_number();
    if (end) *end = (char*)s; return 0; }
  if (*p == '0' && (p[1] == 'x' || p[1] == 'X')) sx_unsupported_number();
  unsigned long m = 0; int nd = 0, frac = 0; bool big = false;
  for (; isdig(*p); p++) { if (nd < 15) { m = m * 10 + (unsigned long)(*p - '0'); nd++; } else big = true; }
  if (*p == '.') { p++; for (; isdig(*p); p++) { if (nd < 15) { m = m * 10 + (unsigned long)(*p - '0'); nd++; frac++; } else big = true; } }
  int e = 0; 
  if ((*p == 'e') | (*p == 'E')) {
    const char* q = p + 1; bool en = false; if (*q == '-') { en = true; q++; } else if (*q == '+') q++;
    if (isdig(*q)) { int n = 0; for (; isdig(*q); q++) { if (n < 6) e = e * 10 + (*q - '0'); n++; } if (en) e = -e; p = q; }
  }
  if (end) *end = (char*)p;
  if (sx_bytes_conc(num, p - num)) { double r = sx_strtod_conc(num, p - num); if (std::isinf(r) || (r == 0 && m != 0) || (r != 0 && std::fabs(r) < 2.2250738585072014e-308)) errno = ERANGE; return neg ? -r : r; }
  if (big) { double r = pinned(num, p - num, m); return neg ? -r : r; }
  e -= frac;
  double r;
  if (m == 0) r = 0; else if (e == 0) r = (double)m;
  else if (e > 0 && e <= 22) r = (double)m * p10(e);
  else if (e < 0 && e >= -22) r = (double)m / p10(-e);
  else r = pinned(num, p - num, m);
  return neg ? -r : r;
}
float strtof(const char* s, char** end) { return (float)strtod(s, end); }  // double rounding: see DESIGN.md
double atof(const char* s) { return strtod(s, nullptr); }
}
namespace std {
from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept {
  char buf[1100]; long n = l - f; if (n > 1099) n = 1099; for (long i = 0; i < n; i++) buf[i] = f[i]; buf[n] = 0;
  if (n == 0 || issp(buf[0]) || buf[0] == '+') return {f, errc::invalid_argument};
  char* e; int sav = errno; errno = 0; double r = strtod(buf, &e); int en = errno; errno = sav;
  if (e == buf) return {f, errc::invalid_argument};
  if (en == ERANGE) return {f + (e - buf), errc::result_out_of_range};
  v = r; return {f + (e - buf), errc{}};
}
}

// ---- numbers to text: only some values of a symbolic double are followed (preferring ones already printed, and close to them); the rest is reported as not covered
extern "C" {
double sx_some(double); void sx_one_value(void); int sx_format_double(char*, unsigned long, const char*, int, double);
static double gTold[64]; static int gTolds;
double sx_pin(double d) {
  if (sx_is_conc(d)) return d;
  for (int i = 0; i < gTolds; i++) {
    double p = gTold[i];
    if (sx_fork(d == p)) return p;
    if (sx_fork((d > p - 4e-7) & (d < p + 4e-7))) { double v = sx_some(d); if (sx_fork(d == v)) { return v; } sx_one_value(); }
  }
  double v = sx_some(d);
  if (sx_fork(d == v)) { if (gTolds < 64) gTold[gTolds++] = v; return v; }
  sx_one_value(); return 0;
}
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t k = 0;
#define OUT(c) do { char c_ = (c); if (k + 1 < n) b[k] = c_; k++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { OUT(*f); continue; }
    char spec[16]; int m = 0; spec[m++] = '%'; f++;
    bool star = false, plain = true; int prec = -1, lng = 0;
    while (*f == '.' || *f == '*' || *f == '#' || *f == '-' || *f == '+' || *f == ' ' || isdig(*f)) { if (m > 11) sx_unsupported_number(); if (*f == '*') { if (star) sx_unsupported_number(); star = true; prec = va_arg(ap, int); } plain = false; spec[m++] = *f++; }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = 1; f++; }
    if (*f == '%') OUT('%');
    else if (*f == 'c') { char c = (char)va_arg(ap, int); OUT(c); }
    else if (*f == 's') { if (!plain && !(star && m == 3)) sx_unsupported_number(); const char* s = va_arg(ap, const char*); for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) OUT(s[i]); }
    else if (*f == 'd' || *f == 'i' || *f == 'u') {
      if (!plain) sx_unsupported_number();
      unsigned long v; bool neg = false;
      if (*f == 'u') v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); else { long s = lng ? va_arg(ap, long) : va_arg(ap, int); neg = s < 0; v = neg ? 0 - (unsigned long)s : (unsigned long)s; }
      char t[24]; int j = 0; do { t[j++] = (char)('0' + v % 10); v /= 10; } while (v); if (neg) t[j++] = '-'; while (j) OUT(t[--j]);
    } else if (*f == 'f' || *f == 'g' || *f == 'e' || *f == 'F' || *f == 'G' || *f == 'E' || *f == 'a') {
      spec[m++] = *f; spec[m] = 0; double d = sx_pin(va_arg(ap, double)); char t[1200]; int j = sx_format_double(t, sizeof t, spec, prec, d); for (int i = 0; i < j; i++) OUT(t[i]);
    } else sx_unsupported_number();
  }
  if (n) b[k < n ? k : n - 1] = 0;
  return (int)k;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
}
template class std::basic_string<char>;
template class std::allocator<char>;
