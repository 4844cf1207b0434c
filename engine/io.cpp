// Model of the standard streams over memory: string streams, and file streams over the one file of fs.cpp.
// The objects belong to their users and hold only what inline code reads (a table with the offset of the virtual base, the format flags);
// everything else is kept beside them. Text and single characters only: formatted numbers are not modelled.
#include <fstream>
#include <sstream>
#include <string>
#include <system_error>
#include <cerrno>
#include <cstring>
extern "C" {
void sx_unsupported_number(void);
__attribute__((weak)) int sx_file_lookup(const char*, const char**, unsigned long*) { sx_unsupported_number(); return 0; }
__attribute__((weak)) void sx_file_opened(int) {}
}
namespace {
enum { BAD = 1, END = 2, FAIL = 4 };
struct St { char* base; size_t len; std::string text; size_t pos = 0, got = 0; int state = 0, mask = 0; bool file = false, open = false, append = false; St* next; };
St* gAll; std::string gShown;
const long IOS = 96;                                   // offset given to the virtual base
long gTable[2][8];
St* make(void* o, size_t len, bool both) {
  gTable[0][0] = IOS; gTable[1][0] = IOS - 16;
  *(long**)o = &gTable[0][3];
  if (both) *(long**)((char*)o + 16) = &gTable[1][3];
  ((std::ios_base*)((char*)o + IOS))->flags(std::ios_base::skipws | std::ios_base::dec); ((std::ios_base*)((char*)o + IOS))->precision(6);
  St* s = new St; s->base = (char*)o; s->len = len; s->next = gAll; gAll = s; return s;
}
St* find(const void* p) { for (St* s = gAll; s; s = s->next) if ((char*)p >= s->base && (char*)p < s->base + s->len) return s; return nullptr; }
St* at(const void* p) { St* s = find(p); if (!s) sx_unsupported_number(); return s; }
void drop(void* o) { for (St** s = &gAll; *s; s = &(*s)->next) if ((*s)->base == (char*)o) { St* d = *s; if (d->file && d->open) sx_file_opened(-1); *s = d->next; delete d; return; } }
void set(St* s, int bits) { s->state |= bits; if (s->state & s->mask) throw std::system_error(std::make_error_code(std::errc::io_error), "stream"); }
void openFile(St* s, const char* p, std::ios_base::openmode m) {
  const char* d; unsigned long n; s->file = true;
  if (m & std::ios_base::out) sx_unsupported_number();
  if (s->open || !sx_file_lookup(p, &d, &n)) { set(s, FAIL); return; }
  s->state = 0; s->open = true; s->text.assign(d, n); s->pos = m & std::ios_base::ate ? n : 0; sx_file_opened(1);
}
bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool ready(St* s, bool skip) {                          // sentry
  if (s->state) { set(s, FAIL); return false; }
  if (skip && (((std::ios_base*)(s->base + IOS))->flags() & std::ios_base::skipws)) { while (s->pos < s->text.size() && sp(s->text[s->pos])) s->pos++; if (s->pos >= s->text.size()) { set(s, END | FAIL); return false; } }
  return true;
}
bool more(St* s) { return s->pos < s->text.size() && (!s->file || s->open); }
void put(void* o, const char* p, long n) { St* s = find(o); std::string& t = s ? s->text : gShown; t.append(p, (unsigned long)n); }
}
extern "C" {
#define M(name) asm(name)
// text to a stream
void* io_insert(void* o, const char* s, long n) M("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void* io_insert(void* o, const char* s, long n) { put(o, s, n); return o; }
void* io_string(void* o, const std::string& s) M("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* io_string(void* o, const std::string& s) { put(o, s.data(), (long)s.size()); return o; }
void* io_cstr(void* o, const char* s) M("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
void* io_cstr(void* o, const char* s) { put(o, s, (long)strlen(s)); return o; }
void* io_char(void* o, char c) M("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
void* io_char(void* o, char c) { put(o, &c, 1); return o; }
// numbers to a stream
void* io_long(void* o, long v) M("_ZNSo9_M_insertIlEERSoT_");
void* io_long(void* o, long v) { if (St* s = find(o)) if (((std::ios_base*)(s->base + IOS))->flags() & (std::ios_base::hex | std::ios_base::oct | std::ios_base::showpos)) sx_unsupported_number(); char b[32]; put(o, b, snprintf(b, sizeof b, "%ld", v)); return o; }
void* io_ulong(void* o, unsigned long v) M("_ZNSo9_M_insertImEERSoT_");
void* io_ulong(void* o, unsigned long v) { if (St* s = find(o)) if (((std::ios_base*)(s->base + IOS))->flags() & (std::ios_base::hex | std::ios_base::oct | std::ios_base::showpos)) sx_unsupported_number(); char b[32]; put(o, b, snprintf(b, sizeof b, "%lu", v)); return o; }
void* io_int(void* o, int v) M("_ZNSolsEi");
void* io_int(void* o, int v) { return io_long(o, v); }
void* io_bool(void* o, bool v) M("_ZNSo9_M_insertIbEERSoT_");
void* io_bool(void* o, bool v) { if (St* s = find(o)) if (((std::ios_base*)(s->base + IOS))->flags() & std::ios_base::boolalpha) return io_cstr(o, v ? "true" : "false"); return io_long(o, v); }
void* io_double(void* o, double v) M("_ZNSo9_M_insertIdEERSoT_");
void* io_double(void* o, double v) {
  long p = 6; std::ios_base::fmtflags f{}; if (St* s = find(o)) { auto* i = (std::ios_base*)(s->base + IOS); p = i->precision(); f = i->flags(); }
  if (f & (std::ios_base::showpos | std::ios_base::uppercase | std::ios_base::showpoint)) sx_unsupported_number();
  f &= std::ios_base::floatfield; if (f == std::ios_base::floatfield) sx_unsupported_number();
  char b[1200]; put(o, b, snprintf(b, sizeof b, f == std::ios_base::fixed ? "%.*f" : f == std::ios_base::scientific ? "%.*e" : "%.*g", (int)p, v)); return o;
}
void* io_put(void* o, char c) M("_ZNSo3putEc");
void* io_put(void* o, char c) { put(o, &c, 1); return o; }
void* io_write(void* o, const char* s, long n) M("_ZNSo5writeEPKcl");
void* io_write(void* o, const char* s, long n) { put(o, s, n); return o; }
void* io_flush(void* o) M("_ZNSo5flushEv");
void* io_flush(void* o) { return o; }
const char* sx_shown(long* n) { *n = (long)gShown.size(); return gShown.data(); }
void* io_rdbuf_in(void* o, void* b) M("_ZNSolsEPSt15basic_streambufIcSt11char_traitsIcEE");
void* io_rdbuf_in(void* o, void* b) {
  St* d = at(o); if (!b) { set(d, BAD); return o; }
  St* s = at(b); if (!more(s)) { set(d, FAIL); return o; }
  d->text.append(s->text, s->pos, std::string::npos); s->pos = s->text.size(); return o;
}
// file streams
void io_if(void* o) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1Ev");
void io_if(void* o) { make(o, sizeof(std::ifstream), false)->file = true; }
void io_if_c(void* o, const char* p, std::ios_base::openmode m) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void io_if_c(void* o, const char* p, std::ios_base::openmode m) { openFile(make(o, sizeof(std::ifstream), false), p, m); }
void io_if_s(void* o, const std::string& p, std::ios_base::openmode m) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void io_if_s(void* o, const std::string& p, std::ios_base::openmode m) { openFile(make(o, sizeof(std::ifstream), false), p.c_str(), m); }
void io_if_open(void* o, const char* p, std::ios_base::openmode m) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
void io_if_open(void* o, const char* p, std::ios_base::openmode m) { openFile(at(o), p, m); }
void io_if_opens(void* o, const std::string& p, std::ios_base::openmode m) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void io_if_opens(void* o, const std::string& p, std::ios_base::openmode m) { openFile(at(o), p.c_str(), m); }
void io_if_close(void* o) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv");
void io_if_close(void* o) { St* s = at(o); if (!s->open) { set(s, FAIL); return; } s->open = false; sx_file_opened(-1); }
bool io_if_is(void* o) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv");
bool io_if_is(void* o) { return at(o)->open; }
bool io_if_isc(void* o) M("_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv");
bool io_if_isc(void* o) { return at(o)->open; }
void io_if_d(void* o) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev");
void io_if_d(void* o) { drop(o); }
void* io_if_buf(void* o) M("_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE5rdbufEv");
void* io_if_buf(void* o) { return (char*)o + 32; }
// string streams
void io_ss(void* o) M("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void io_ss(void* o) { make(o, sizeof(std::stringstream), true); }
void io_ss_s(void* o, const std::string& t, std::ios_base::openmode) M("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
void io_ss_s(void* o, const std::string& t, std::ios_base::openmode) { sx_unsupported_number(); }
void io_ss_d(void* o) M("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev");
void io_ss_d(void* o) { drop(o); }
std::string io_ss_str(void* o) M("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string io_ss_str(void* o) { return at(o)->text; }
void io_os(void* o) M("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void io_os(void* o) { make(o, sizeof(std::ostringstream), false); }
void io_os_d(void* o) M("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev");
void io_os_d(void* o) { drop(o); }
std::string io_os_str(void* o) M("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string io_os_str(void* o) { return at(o)->text; }
void io_is(void* o, const std::string& t, std::ios_base::openmode) M("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
void io_is(void* o, const std::string& t, std::ios_base::openmode) { make(o, sizeof(std::istringstream), false)->text = t; }
void io_is_d(void* o) M("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev");
void io_is_d(void* o) { drop(o); }
// state
bool io_good(void* o) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv");
bool io_good(void* o) { return at(o)->state == 0; }
bool io_fail(void* o) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool io_fail(void* o) { return (at(o)->state & (BAD | FAIL)) != 0; }
bool io_eof(void* o) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv");
bool io_eof(void* o) { return (at(o)->state & END) != 0; }
bool io_bad(void* o) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv");
bool io_bad(void* o) { return (at(o)->state & BAD) != 0; }
bool io_yes(void* o) M("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool io_yes(void* o) { return !io_fail(o); }
bool io_not(void* o) M("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool io_not(void* o) { return io_fail(o); }
void io_exc(void* o, int m) M("_ZNSt9basic_iosIcSt11char_traitsIcEE10exceptionsESt12_Ios_Iostate");
void io_exc(void* o, int m) { St* s = at(o); s->mask = m; set(s, 0); }
void io_clear(void* o, int m) M("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
void io_clear(void* o, int m) { St* s = at(o); s->state = m; set(s, 0); }
void* io_buf(void* o) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv");
void* io_buf(void* o) { return at(o)->base + 32; }
// reading
int io_sgetc(void* b) M("_ZNSt15basic_streambufIcSt11char_traitsIcEE5sgetcEv");
int io_sgetc(void* b) { St* s = at(b); return more(s) ? (int)(unsigned char)s->text[s->pos] : -1; }
int io_sbumpc(void* b) M("_ZNSt15basic_streambufIcSt11char_traitsIcEE6sbumpcEv");
int io_sbumpc(void* b) { St* s = at(b); return more(s) ? (int)(unsigned char)s->text[s->pos++] : -1; }
int io_snextc(void* b) M("_ZNSt15basic_streambufIcSt11char_traitsIcEE6snextcEv");
int io_snextc(void* b) { return io_sbumpc(b) < 0 ? -1 : io_sgetc(b); }
long io_sgetn(void* b, char* p, long n) M("_ZNSt15basic_streambufIcSt11char_traitsIcEE5sgetnEPcl");
long io_sgetn(void* b, char* p, long n) { St* s = at(b); long k = 0; while (k < n && more(s)) p[k++] = s->text[s->pos++]; return k; }
int io_get(void* o) M("_ZNSi3getEv");
int io_get(void* o) { St* s = at(o); s->got = 0; if (!ready(s, false)) return -1; if (!more(s)) { set(s, END | FAIL); return -1; } s->got = 1; return (int)(unsigned char)s->text[s->pos++]; }
void* io_getc(void* o, char& c) M("_ZNSi3getERc");
void* io_getc(void* o, char& c) { int k = io_get(o); if (k >= 0) c = (char)k; return o; }
int io_peek(void* o) M("_ZNSi4peekEv");
int io_peek(void* o) { St* s = at(o); s->got = 0; if (!ready(s, false)) return -1; if (!more(s)) { set(s, END); return -1; } return (int)(unsigned char)s->text[s->pos]; }
void* io_ignore(void* o) M("_ZNSi6ignoreEv");
void* io_ignore(void* o) { St* s = at(o); s->got = 0; if (!ready(s, false)) return o; if (!more(s)) { set(s, END); return o; } s->got = 1; s->pos++; return o; }
void* io_read(void* o, char* p, long n) M("_ZNSi4readEPcl");
void* io_read(void* o, char* p, long n) { St* s = at(o); s->got = 0; if (!ready(s, false)) return o; long k = 0; while (k < n && more(s)) p[k++] = s->text[s->pos++]; s->got = (size_t)k; if (k < n) set(s, END | FAIL); return o; }
long io_gcount(void* o) M("_ZNKSi6gcountEv");
long io_gcount(void* o) { return (long)at(o)->got; }
std::streampos io_tellg(void* o) M("_ZNSi5tellgEv");
std::streampos io_tellg(void* o) { St* s = at(o); if (s->state & (FAIL | BAD)) return std::streampos(-1); return std::streampos((long)s->pos); }
void* io_seek(void* o, long d, std::ios_base::seekdir w) M("_ZNSi5seekgElSt12_Ios_Seekdir");
void* io_seek(void* o, long d, std::ios_base::seekdir w) {
  St* s = at(o); s->state &= ~END; if (s->state) { set(s, FAIL); return o; }
  long p = (w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? (long)s->pos : (long)s->text.size()) + d;
  if (p < 0 || (!s->file && p > (long)s->text.size())) set(s, FAIL); else s->pos = (size_t)p;
  return o;
}
void* io_seekp(void* o, std::streampos p) M("_ZNSi5seekgESt4fposI11__mbstate_tE");
void* io_seekp(void* o, std::streampos p) { return io_seek(o, (long)p, std::ios_base::beg); }
void* io_manip(void* o, std::ios_base& (*f)(std::ios_base&)) M("_ZNSirsEPFRSt8ios_baseS0_E");
void* io_manip(void* o, std::ios_base& (*f)(std::ios_base&)) { f(*(std::ios_base*)(at(o)->base + IOS)); return o; }
void* io_line_d(void* o, std::string& t, char d) M("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
void* io_line_d(void* o, std::string& t, char d) {
  St* s = at(o); if (!ready(s, false)) return o; t.clear(); bool any = false;
  for (;;) { if (!more(s)) { set(s, any ? END : END | FAIL); return o; } char c = s->text[s->pos++]; any = true; if (c == d) return o; t += c; }
}
void* io_line(void* o, std::string& t) M("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* io_line(void* o, std::string& t) { return io_line_d(o, t, '\n'); }
void* io_word(void* o, std::string& t) M("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* io_word(void* o, std::string& t) {
  St* s = at(o); if (!ready(s, true)) return o; t.clear(); bool any = false;
  while (more(s) && !sp(s->text[s->pos])) { t += s->text[s->pos++]; any = true; }
  if (!more(s)) set(s, any ? END : END | FAIL); else if (!any) set(s, FAIL);
  return o;
}
void* io_one(void* o, char& c) M("_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_");
void* io_one(void* o, char& c) { St* s = at(o); if (!ready(s, true)) return o; if (!more(s)) { set(s, END | FAIL); return o; } c = s->text[s->pos++]; return o; }
}
