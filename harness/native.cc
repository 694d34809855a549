// Native counterpart of the harness interface: replays recorded inputs against the real
// code with the real libraries.   usage: replay <scenario> <inputs-file>
// exit 0: all assertions held; 1: an assertion failed; 3: an assumption did not hold;
// anything else (sanitizer report, abort, uncaught exception): the run itself failed.
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <getopt.h>
#include <sys/stat.h>
#include <unistd.h>
#include "symx.h"
static std::vector<std::pair<std::string, unsigned long>> g_in;
static size_t g_pos = 0;
static std::map<std::string, unsigned long> g_param;
static unsigned long nextIn(const char* name) {
  if (g_pos >= g_in.size()) { std::fprintf(stderr, "REPLAY: ran past the recorded inputs at %s\n", name); std::_Exit(3); }
  if (g_in[g_pos].first != name) { std::fprintf(stderr, "REPLAY: expected input %s, recorded %s\n", name, g_in[g_pos].first.c_str()); std::_Exit(3); }
  return g_in[g_pos++].second;
}
static long (*g_clock)() = nullptr;
struct CatBuf : std::streambuf {
  std::string* s;
  explicit CatBuf(std::string* p) : s(p) {}
  int_type overflow(int_type c) override { if (c != traits_type::eof()) s->push_back(static_cast<char>(c)); return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { s->append(p, static_cast<size_t>(n)); return n; }
};
extern "C" {
unsigned long symx_var(const char* n, int bits) { unsigned long v = nextIn(n); return bits >= 64 ? v : v & ((1UL << bits) - 1); }
unsigned long symx_choose(const char* n, unsigned long k) { unsigned long v = nextIn(n); if (v >= k) { std::fprintf(stderr, "REPLAY: choice out of range\n"); std::_Exit(3); } return v; }
void symx_assume(int c) { if (!c) { std::fprintf(stderr, "REPLAY: assumption does not hold\n"); std::_Exit(3); } }
void symx_assert(int c, const char* m) { if (!c) { std::fprintf(stderr, "ASSERTION FAILED: %s\n", m); std::fflush(stderr); std::_Exit(1); } }
void symx_reached(const char*) {}
void symx_note(const char* w, unsigned long v) { std::fprintf(stderr, "note: %s = %lu (0x%lx)\n", w, v, v); }
unsigned long symx_umax(unsigned long) { return ~0UL; }
int symx_is_symbolic(unsigned long) { return 0; }
int symx_same(unsigned long a, unsigned long b) { return a == b; }
unsigned long symx_concretize(unsigned long v) { return v; }
void symx_end() { std::_Exit(0); }
unsigned long symx_param(const char* n, unsigned long d) { auto i = g_param.find(n); return i == g_param.end() ? d : i->second; }
int symx_fmt_double(char* b, int cap, double v, int prec, int mode) { return std::snprintf(b, static_cast<size_t>(cap), mode == 1 ? "%.*f" : mode == 2 ? "%.*e" : "%.*g", prec, v); }
void symx_set_clock(long (*f)()) { g_clock = f; }
long symx_now_ns() { return g_clock ? g_clock() : 1700000000000000000L; }
static std::stringbuf* g_cin = nullptr;
void symx_set_stdin(const char* p, unsigned long n) {
  std::string s(p, n);
  std::cin.clear();
  g_cin = new std::stringbuf(s, std::ios::in);
  std::cin.rdbuf(g_cin);
  char path[] = "/tmp/symx_replay_XXXXXX";
  int fd = mkstemp(path); unlink(path);
  if (write(fd, s.data(), s.size()) < 0) std::_Exit(3);
  lseek(fd, 0, SEEK_SET);
  stdin = fdopen(fd, "r");
}
static std::string g_dir;
void symx_add_file(const char* name, const char* p, unsigned long n) {
  if (g_dir.empty()) { char d[] = "/tmp/symx_replay_XXXXXX"; g_dir = mkdtemp(d); if (chdir(g_dir.c_str())) std::_Exit(3); }
  std::string s(name);
  for (size_t i = 1; i < s.size(); i++) if (s[i] == '/') mkdir(s.substr(0, i).c_str(), 0700);
  std::ofstream o(s, std::ios::binary); o.write(p, static_cast<std::streamsize>(n));
}
void symx_getopt_reset() { optind = 0; }
void symx_set_tz(long off, int dst) {
  char b[96]; long h = off / 3600, m = off % 3600 / 60;
  std::string o = (off > 0 ? "-" : ""); long ah = h < 0 ? -h : h, am = m < 0 ? -m : m;
  char t[16]; std::snprintf(t, 16, "%ld:%02ld", ah, am); o += t;
  if (dst) { long s1 = 3600 + off, s2 = 3600 + off + 3600; std::snprintf(b, 96, "STD%sDST,J88/%ld:%02ld,J300/%ld:%02ld", o.c_str(), s1 / 3600, labs(s1 % 3600 / 60), s2 / 3600, labs(s2 % 3600 / 60)); }
  else std::snprintf(b, 96, "STD%s", o.c_str());
  setenv("TZ", b, 1); tzset();
}
}
void symx_capture_(int fd, std::string* s) {
  auto* b = new CatBuf(s);
  (fd == 1 ? std::cout : std::cerr).rdbuf(b);
  if (fd == 1) {
    cookie_io_functions_t io{}; io.write = [](void* c, const char* p, size_t n) -> ssize_t { static_cast<std::string*>(c)->append(p, n); return static_cast<ssize_t>(n); };
    stdout = fopencookie(s, "w", io); setvbuf(stdout, nullptr, _IONBF, 0);
  }
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(symx_now_ns())); }
} } }
int main(int argc, char** argv) {
  if (argc < 3) return 9;
  setenv("TZ", "UTC", 1); tzset();
  std::ifstream f(argv[2]); std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ss(line); std::string k; ss >> k;
    if (k == "param") { std::string n; unsigned long v; ss >> n >> v; g_param[n] = v; }
    else if (k == "in") { std::string n; unsigned long v; ss >> v; std::getline(ss, n); g_in.push_back({n.empty() ? n : n.substr(1), v}); }
  }
  auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
  if (!fn) { std::fprintf(stderr, "no scenario %s\n", argv[1]); return 9; }
  fn();
  std::cout.flush(); std::fflush(nullptr);
  if (!g_dir.empty()) { if (chdir("/")) return 9; std::string c = "rm -r '" + g_dir + "'"; if (std::system(c.c_str())) return 9; }
  std::_Exit(0);
}
