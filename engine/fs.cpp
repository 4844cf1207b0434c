// Model of one file: the system calls and the out-of-line parts of std::filesystem that reading it needs.
#include <filesystem>
#include <system_error>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
static const char* gData; static unsigned long gSize, gPos; static int gExists, gOpen;
extern "C" {
const char* sx_file(const char* d, unsigned long n, int exists) { gData = d; gSize = n; gExists = exists; return "/scratch/file"; }
int sx_file_open(void) { return gOpen; }
static int same(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
int open(const char* p, int, ...) { if (!gExists || !same(p, "/scratch/file")) { errno = ENOENT; return -1; } gOpen++; gPos = 0; return 7; }
int open64(const char* p, int f, ...) { return open(p, f); }
int close(int fd) { if (fd != 7 || !gOpen) { errno = EBADF; return -1; } gOpen--; return 0; }
int fstat(int fd, struct stat* s) { if (fd != 7 || !gOpen) { errno = EBADF; return -1; } memset(s, 0, sizeof *s); s->st_size = (long)gSize; s->st_mode = S_IFREG | 0644; return 0; }
void* mmap(void*, size_t n, int, int, int fd, off_t) {
  if (!n) { errno = EINVAL; return (void*)-1; }
  if (fd != 7 || !gOpen) { errno = EBADF; return (void*)-1; }
  char* p = (char*)malloc(n); memcpy(p, gData, n < gSize ? n : gSize); return p;
}
int sx_file_lookup(const char* p, const char** d, unsigned long* n) { if (!gExists || !same(p, "/scratch/file")) { errno = ENOENT; return 0; } *d = gData; *n = gSize; return 1; }
void sx_file_opened(int k) { gOpen += k; }
static int gEnd;
long read(int fd, void* b, size_t n) { if (fd != 7 || !gOpen) { errno = EBADF; return -1; } size_t k = 0; while (k < n && gPos < gSize) ((char*)b)[k++] = gData[gPos++]; return (long)k; }
off_t lseek(int fd, off_t o, int w) { if (fd != 7 || !gOpen) { errno = EBADF; return -1; } long p = (w == 0 ? 0 : w == 1 ? (long)gPos : (long)gSize) + o; if (p < 0) { errno = EINVAL; return -1; } gPos = (unsigned long)p; return p; }
int stat(const char* p, struct stat* s) { if (!gExists || !same(p, "/scratch/file")) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_size = (long)gSize; s->st_mode = S_IFREG | 0644; return 0; }
int access(const char* p, int) { if (!gExists || !same(p, "/scratch/file")) { errno = ENOENT; return -1; } return 0; }
// stdio
static char gStream[8];
FILE* fopen(const char* p, const char* m) { if (*m != 'r') { errno = EACCES; return nullptr; } if (open(p, 0) < 0) return nullptr; gPos = 0; gEnd = 0; return (FILE*)gStream; }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE*) { return close(7); }
int fileno(FILE*) { return 7; }
size_t fread(void* b, size_t z, size_t n, FILE*) { size_t k = 0; if (!z || !n) return 0; while (k < z * n) { if (gPos >= gSize) { gEnd = 1; break; } ((char*)b)[k++] = gData[gPos++]; } return k / z; }
int fgetc(FILE*) { if (gPos >= gSize) { gEnd = 1; return -1; } return (int)(unsigned char)gData[gPos++]; }
int getc(FILE* f) { return fgetc(f); }
char* fgets(char* b, int n, FILE* f) { int k = 0; while (k + 1 < n) { int c = fgetc(f); if (c < 0) break; b[k++] = (char)c; if (c == '\n') break; } if (!k) return nullptr; b[k] = 0; return b; }
int feof(FILE*) { return gEnd; }
int ferror(FILE*) { return 0; }
int fseek(FILE*, long o, int w) { gEnd = 0; return lseek(7, o, w) < 0 ? -1 : 0; }
int fseeko(FILE* f, off_t o, int w) { return fseek(f, o, w); }
long ftell(FILE*) { return (long)gPos; }
off_t ftello(FILE*) { return (long)gPos; }
void rewind(FILE*) { gPos = 0; gEnd = 0; }
int munmap(void* p, size_t n) { if (p == (void*)-1 || !n) { errno = EINVAL; return -1; } free(p); return 0; }
}
namespace std {
error_category::~error_category() noexcept {}
__cow_string error_category::_M_message(int) const { return __cow_string(); }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
namespace { struct Sys : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "error"; } }; }
inline namespace _V2 {
const error_category& system_category() noexcept { static Sys* s = new Sys; return *s; }
const error_category& generic_category() noexcept { static Sys* s = new Sys; return *s; }
}
system_error::~system_error() noexcept {}
namespace filesystem {
struct filesystem_error::_Impl { int unused; };
}
template class __shared_ptr<const filesystem::filesystem_error::_Impl>;
namespace filesystem {
filesystem_error::filesystem_error(const string& w, error_code ec) : system_error(ec, w) {}
filesystem_error::filesystem_error(const string& w, const path&, error_code ec) : system_error(ec, w) {}
filesystem_error::filesystem_error(const string& w, const path&, const path&, error_code ec) : system_error(ec, w) {}
filesystem_error::~filesystem_error() {}
const char* filesystem_error::what() const noexcept { return runtime_error::what(); }
struct path::_List::_Impl { int unused; };
path::_List::_List() {}
path::_List::_List(const _List&) {}
path::_List& path::_List::operator=(const _List&) { return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
void path::_M_split_cmpts() {}
// the names given to the model are plain: their bytes are compared
path& path::operator=(const path& p) { _M_pathname = p._M_pathname; return *this; }
int path::compare(const path& p) const noexcept { return _M_pathname.compare(p._M_pathname); }
int path::compare(std::string_view v) const noexcept { return std::string_view(_M_pathname).compare(v); }
static bool here(const path& p) { return gExists && p.native() == "/scratch/file"; }
static error_code none() { return make_error_code(errc::no_such_file_or_directory); }
file_status status(const path& p) { return here(p) ? file_status(file_type::regular, perms::owner_read | perms::owner_write) : file_status(file_type::not_found); }
file_status status(const path& p, error_code& e) noexcept { if (here(p)) e.clear(); else e = none(); return status(p); }
file_status symlink_status(const path& p) { return status(p); }
uintmax_t file_size(const path& p) { if (!here(p)) throw filesystem_error("file size", p, none()); return gSize; }
uintmax_t file_size(const path& p, error_code& e) noexcept { if (!here(p)) { e = none(); return (uintmax_t)-1; } e.clear(); return gSize; }
static file_time_type gTime(file_time_type::duration(1000000000000));   // the time does not move: writes within one tick are not told apart
file_time_type last_write_time(const path& p) { if (!here(p)) throw filesystem_error("time", p, none()); return gTime; }
file_time_type last_write_time(const path& p, error_code& e) noexcept { if (!here(p)) { e = none(); return file_time_type::min(); } e.clear(); return gTime; }
path absolute(const path& p) { return p; }
path absolute(const path& p, error_code& e) { e.clear(); return p; }
path canonical(const path& p) { if (!here(p)) throw filesystem_error("canonical", p, none()); return p; }
path canonical(const path& p, error_code& e) { if (!here(p)) { e = none(); return path(); } e.clear(); return p; }
path weakly_canonical(const path& p) { return p; }
path weakly_canonical(const path& p, error_code& e) { e.clear(); return p; }
bool is_empty(const path& p) { return file_size(p) == 0; }
}
}
