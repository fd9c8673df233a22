// Native replay runtime: supplies the recorded inputs to the harness compiled with the real toolchain.
#include "flysym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
static std::map<std::string, uint64_t> g_in, g_par; static std::map<std::string, int> g_cnt; static bool g_missing = false;
static uint64_t take(const char *n) {
  int k = g_cnt[n]++; std::string s = k ? std::string(n) + "." + std::to_string(k) : n;
  auto it = g_in.find(s); if (it == g_in.end()) { if (!g_missing) { g_missing = true; printf("FS_MISSING %s\n", s.c_str()); fflush(stdout); } return 0; }
  return it->second;
}
extern "C" {
uint8_t fs_u8(const char *n) { return (uint8_t)take(n); }
uint16_t fs_u16(const char *n) { return (uint16_t)take(n); }
uint32_t fs_u32(const char *n) { return (uint32_t)take(n); }
uint64_t fs_u64(const char *n) { return take(n); }
bool fs_bool(const char *n) { return take(n) & 1; }
void fs_bytes(void *p, size_t n, const char *nm) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)take((std::string(nm) + "[" + std::to_string(i) + "]").c_str()); }
unsigned fs_choose(unsigned n, const char *nm) { unsigned v = (unsigned)take(nm); return v < n ? v : 0; }
void fs_assume(bool c) { if (!c) { printf("FS_ASSUME_FALSE\n"); fflush(stdout); _exit(43); } }
void fs_assert(bool c, const char *m) { if (!c) { printf("FS_VIOLATION %s\n", m); fflush(stdout); _exit(42); } }
void fs_reach(const char *) {}
void fs_observe(uint64_t v) { printf("FS_OBS %llu\n", (unsigned long long)v); }
uint64_t fs_concretize(uint64_t v) { return v; }
uint64_t fs_param(const char *n, uint64_t d) { auto it = g_par.find(n); return it == g_par.end() ? d : it->second; }
void fs_print(const char *n, uint64_t v) { printf("FS_PRINT %s %llu\n", n, (unsigned long long)v); }
bool fs_symbolic(void) { return false; }
void fs_end(void) { printf("FS_END\n"); fflush(stdout); _exit(0); }
uint64_t fs_live_heap(void) { return 0; }
static uint64_t g_clock = 0;
uint64_t fs_clock_advance(uint64_t ns) { return g_clock += ns; }
uint64_t fs_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void fs_incomplete(const char *) { printf("FS_INCOMPLETE\n"); fflush(stdout); _exit(44); }
}
// scratch-directory files
#include "models.h"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <csignal>
extern "C" {
const char *vf_root(void) { static std::string r = getenv("FS_SCRATCH") ? getenv("FS_SCRATCH") : "/nonexistent"; return r.c_str(); }
// files below /proc stand for ones in the scratch directory
static std::string mapped(const char *p) { std::string s = p; if (s.rfind("/proc/", 0) == 0 && getenv("FS_SCRATCH")) { for (auto &c : s) if (c == '/') c = '_'; s = std::string(getenv("FS_SCRATCH")) + "/" + s; } return s; }
FILE *fopen(const char *p, const char *m) { static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); std::string s = mapped(p); return real(strstr(p, "/proc/stat") || strstr(p, "/proc/self/status") ? s.c_str() : p, m); }
void vf_put(const char *q, const char *d, size_t n) { std::string s = mapped(q); const char *p = s.c_str(); std::ofstream o(p, std::ios::binary | std::ios::trunc); o.write(d, (long)n); }
void vf_mkdir(const char *p) { mkdir(p, 0700); }
size_t vf_get(const char *p, char *out, size_t cap) { std::ifstream i(p, std::ios::binary); if (!i) return (size_t)-1; std::string s((std::istreambuf_iterator<char>(i)), {}); memcpy(out, s.data(), s.size() < cap ? s.size() : cap); return s.size(); }
bool vf_exists(const char *p) { struct stat st; return stat(p, &st) == 0; }
void vf_remove(const char *p) { unlink(mapped(p).c_str()); }
static std::vector<std::string> ls(const std::string &d) { std::vector<std::string> r; if (DIR *h = opendir(d.c_str())) { while (auto *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; if (e->d_type == DT_DIR) { for (auto &x : ls(d + "/" + n)) r.push_back(x); } else r.push_back(d + "/" + n); } closedir(h); } std::sort(r.begin(), r.end()); return r; }
size_t vf_count(void) { return ls(vf_root()).size(); }
const char *vf_name(size_t k) { static std::string s; auto v = ls(vf_root()); s = k < v.size() ? v[k] : ""; return s.c_str(); }
void vf_limit_writes(int bytes) { signal(SIGXFSZ, SIG_IGN); struct rlimit r = {(rlim_t)bytes, (rlim_t)bytes}; setrlimit(RLIMIT_FSIZE, &r); }
__attribute__((weak)) void fs_yield(void) {}
}
int main(int argc, char **argv) {
  // argv: entry inputs-file [k=v]...
  if (argc < 3) return 2;
  std::ifstream f(argv[2]); std::string n; uint64_t v; while (f >> n >> v) g_in[n] = v;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int i = 3; i < argc; i++) { std::string p = argv[i]; auto e = p.find('='); g_par[p.substr(0, e)] = std::stoull(p.substr(e + 1)); }
  void *h = dlopen(nullptr, RTLD_NOW); auto fn = (void (*)())dlsym(h, argv[1]);
  if (!fn) { printf("FS_NOENTRY %s\n", dlerror()); return 2; }
  try { fn(); } catch (std::exception &e) { printf("FS_UNCAUGHT %s\n", e.what()); fflush(stdout); _exit(45); } catch (...) { printf("FS_UNCAUGHT\n"); fflush(stdout); _exit(45); }
  printf("FS_END\n"); fflush(stdout); _exit(0);
}
