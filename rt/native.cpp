// Native side of the harness interface: replays one assignment of the symbolic variables against the real
// library (compiled with AddressSanitizer and UndefinedBehaviorSanitizer, real iostreams, real files).
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
static std::map<std::string, unsigned long> vals; static std::map<std::string, long> prm; static std::map<std::string, int> cnt; static int used = 0;
static bool get(const char* n, unsigned long& v) {
  std::string k = std::string(n) + "#" + std::to_string(cnt[n]++);
  auto it = vals.find(k); if (it == vals.end()) return false; v = it->second; used++; return true; }
unsigned long __sym_var(const char* n, unsigned w) { unsigned long v = 0; get(n, v); return w >= 64 ? v : v & ((1ul << w) - 1); }
unsigned long __sym_rvar(const char* n, unsigned, unsigned long lo, unsigned long hi) { unsigned long v = lo; if (lo == hi) { cnt[n]++; return lo; } get(n, v); return v; }
double __sym_double(const char* n) { unsigned long v = 0; get(n, v); double d; memcpy(&d, &v, 8); return d; }
double __sym_intreal(const char* n, long lo, long hi) { unsigned long v; double d = (double)(lo > 0 ? lo : hi < 0 ? hi : 0); if (get(n, v)) memcpy(&d, &v, 8); return d; }
static void finish(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
void sym_assume(bool c) { if (!c) { printf("REPLAY assumption not met\n"); finish(3); } }
void sym_assert(bool c, const char* m) { if (!c) { printf("REPLAY-ASSERT %s\n", m); finish(42); } }
void sym_reach(const char* l) { printf("REACH %s\n", l); }
long sym_param(const char* n, long d) { auto it = prm.find(n); return it == prm.end() ? d : it->second; }
void __sym_note(const char* s) { printf("NOTE %s\n", s); }
void sym_notev(const char* l, long v) { printf("NOTE %s=%ld\n", l, v); }
std::string sym_str(const char* n, int len, unsigned char lo, unsigned char hi) { std::string s((size_t)len, ' '); for (int i = 0; i < len; i++) s[i] = (char)__sym_rvar(n, 8, lo, hi); return s; }
std::string sym_strv(const char* n, int a, int b, unsigned char lo, unsigned char hi) { std::string nm(n); nm += ".len"; int k = a == b ? a : a + sym_choice(nm.c_str(), b - a + 1); return sym_str(n, k, lo, hi); }
void vfs_put(const char* n, const std::string& d) { std::ofstream f(n, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }
bool vfs_get(const char* n, std::string& d) { std::ifstream f(n, std::ios::binary); if (!f) return false; std::ostringstream o; o << f.rdbuf(); d = o.str(); return true; }
void vfs_space(long b) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = b < 0 ? r.rlim_max : (rlim_t)b; setrlimit(RLIMIT_FSIZE, &r); signal(SIGXFSZ, SIG_IGN); }
void vfs_deny(const char* n, bool d) { if (d) { mkdir(n, 0700); } else rmdir(n); }
void vfs_noread(const char* n) { chmod(".", 0777); chmod(n, 0200); if (getuid() == 0) { if (chown(n, 65534, 65534) || seteuid(65534)) perror("seteuid"); } }
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s FUNCTION REPLAYFILE\n", argv[0]); return 2; }
  std::ifstream f(argv[2]); std::string l;
  if (!f) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
  while (std::getline(f, l)) {
    if (l.compare(0, 4, "var ") == 0) { std::istringstream s(l.substr(4)); std::string n, v; s >> n >> v; vals[n] = strtoul(v.c_str(), 0, 16); }
    else if (l.compare(0, 6, "param ") == 0) { std::istringstream s(l.substr(6)); std::string n; long v; s >> n >> v; prm[n] = v; } }
  f.close();
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  alarm(60);
  fn();
  printf("REPLAY-OK\n"); finish(0); }
