// Native replay runtime: reads recorded inputs (argv[1]) in call order and runs the harness on the real build.
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
extern "C" void sx_main();
static std::vector<std::pair<std::string, uint64_t>> in; static size_t pos;
static int failed;
static uint64_t next(const char* n) {
  if (pos >= in.size()) { printf("END inputs-exhausted %s\n", n); fflush(stdout); _Exit(4); }
  std::string nm = in[pos].first; auto h = nm.rfind('#'); if (h != std::string::npos) nm = nm.substr(0, h);
  if (nm != n) { printf("END input-mismatch want %s have %s\n", n, nm.c_str()); fflush(stdout); _Exit(4); }
  return in[pos++].second;
}
static double D(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
extern "C" {
double sx_double(const char* n) { return D(next(n)); }
double sx_real(const char* n, double, double, int) { return D(next(n)); }
uint64_t sx_u64(const char* n) { return next(n); }
uint32_t sx_u32(const char* n) { return (uint32_t)next(n); }
uint8_t sx_byte(const char* n) { return (uint8_t)next(n); }
uint64_t sx_choose(const char* n, uint64_t) { return next(n); }
void sx_assume(int c) { if (!c) { printf("END assume\n"); fflush(stdout); _Exit(5); } }
void sx_check(int c, const char* l) { if (!c) { printf("FAIL %s\n", l); fflush(stdout); failed = 1; } }
void sx_reach(const char* l) { printf("REACH %s\n", l); }
double sx_min(double a, double b) { return b < a ? b : a; }
double sx_max(double a, double b) { return b > a ? b : a; }
double sx_ite(int c, double a, double b) { return c ? a : b; }
int sx_same(double a, double b) { if (std::isnan(a) && std::isnan(b)) return 1; return memcmp(&a, &b, 8) == 0; }
int sx_fork(int c) { return c != 0; }
void sx_obs_d(const char* n, double v) { uint64_t b; memcpy(&b, &v, 8); printf("OBS %s d %016lx\n", n, (unsigned long)b); }
void sx_obs_i(const char* n, int64_t v) { printf("OBS %s i %016lx\n", n, (unsigned long)v); }
int sx_symbolic(void) { return 0; }
const char* sx_shown(long* n) { *n = 0; return ""; }
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  FILE* f = fopen(argv[1], "r"); char nm[256]; unsigned long v;
  while (f && fscanf(f, "%255s %lx", nm, &v) == 2) in.emplace_back(nm, v);
  if (f) fclose(f);
  std::set_terminate([] { printf("FAULT terminate\n"); fflush(stdout); _Exit(6); });
  sx_main();
  printf("END done\n"); fflush(stdout);
  return failed ? 3 : 0;
}
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
static char gFile[64]; static char gGone[64];
static void dropFile() { if (gFile[0]) unlink(gFile); }
const char* sx_file(const char* d, unsigned long n, int exists) {
  static bool once; if (!once) { once = true; atexit(dropFile); }
  static char path[64]; int fd;                      // one name throughout
  if (path[0]) { strcpy(gFile, path); fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); }
  else { strcpy(gFile, "/tmp/sxfileXXXXXX"); fd = mkstemp(gFile); strcpy(path, gFile); }
  unsigned long k = 0;
  while (k < n) { long w = write(fd, d + k, n - k); if (w <= 0) break; k += (unsigned long)w; }
  close(fd);
  if (!exists) { unlink(gFile); strcpy(gGone, gFile); gFile[0] = 0; return gGone; }
  return gFile;
}
int sx_file_open(void) {  // descriptors still open on the file
  int n = 0; struct stat a, b;
  if (!gFile[0] || stat(gFile, &a)) return 0;
  for (int fd = 3; fd < 64; fd++) if (!fstat(fd, &b) && a.st_dev == b.st_dev && a.st_ino == b.st_ino) n++;
  return n;
}
}
