// Common trace-recording support for the conformance drivers.
// A driver runs the real code of /repo and records one JSON line per
// observed step; the TLA+ trace specifications decide whether the recorded
// history is a behaviour of the specification.
#ifndef VT_HPP
#define VT_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <functional>
#include <csignal>
#include <unistd.h>
#include <fstream>

namespace vt {

struct Args { uint64_t seed = 1; int shard = 0, nshards = 1; int scale = 1; std::string out, scen, tmp, mode; };
inline Args& args() { static Args a; return a; }

// Deterministic generator for the driver's own choices (independent of eo::rng)
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return (int)(next() % (uint64_t)n); }
  int in(int a, int b) { return a + below(b - a + 1); }
  bool coin(int num = 1, int den = 2) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

static const long LIM = 2147483000L;
inline long clampi(double x) {
  if (x != x) return -LIM - 1;                 // NaN marker
  if (x > (double)LIM) return LIM;
  if (x < -(double)LIM) return -LIM;
  return std::lround(x);
}
// fixed point rendering of a real (TLC integers are 32 bit)
inline long fx(double x, double scale = 1000.0) { return (x != x) ? -LIM - 1 : clampi(x * scale); }
// fixed point only if the value is exactly representable; otherwise NaN marker
inline long exactint(double x) { if (x == std::floor(x) && std::fabs(x) <= (double)LIM) return (long)x; return -LIM - 1; }

inline FILE*& file() { static FILE* f = stdout; return f; }
inline long& count() { static long c = 0; return c; }

// what the driver is doing, reported if the code under test crashes
inline char* markbuf() { static char b[4096]; return b; }
inline void mark(const std::string& s) { std::strncpy(markbuf(), s.c_str(), 4095); }
inline void onsig(int sig) {
  const char* m = "\nCRASH-DURING ";
  (void)!write(2, m, strlen(m)); (void)!write(2, markbuf(), strlen(markbuf())); (void)!write(2, "\n", 1);
  signal(sig, SIG_DFL); raise(sig);
}

inline std::string js(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
inline std::string js(const char* s) { return js(std::string(s)); }
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(int v) { return std::to_string(clampi(v)); }
inline std::string js(unsigned v) { return std::to_string(clampi(v)); }
inline std::string js(long v) { return std::to_string(v < -LIM - 1 ? -LIM : v > LIM ? LIM : v); }
inline std::string js(unsigned long v) { return std::to_string(v > (unsigned long)LIM ? LIM : (long)v); }
inline std::string js(long long v) { return js((long)v); }
template <class T> std::string js(const std::vector<T>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += js((T)v[i]); } return o + "]"; }
inline std::string js(const std::vector<bool>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += v[i] ? "1" : "0"; } return o + "]"; }
struct Raw { std::string s; };
inline std::string js(const Raw& r) { return r.s; }
typedef std::vector<long> IV;
typedef std::vector<IV> IVV;

struct Obj { std::string s; Obj& f(const char* k, const Raw& v) { return put(k, v.s); }
  template <class T> Obj& f(const char* k, const T& v) { return put(k, js(v)); }
  Obj& put(const char* k, const std::string& v) { if (!s.empty()) s += ","; s += js(k); s += ":"; s += v; return *this; }
  operator Raw() const { return Raw{"{" + s + "}"}; } };
inline std::string js(const Obj& o) { return "{" + o.s + "}"; }

// one recorded event
struct Ev {
  Obj o;
  explicit Ev(const char* op) { o.f("op", op); }
  template <class T> Ev& f(const char* k, const T& v) { o.f(k, v); return *this; }
  ~Ev() { fputs(js(o).c_str(), file()); fputc('\n', file()); ++count(); if ((count() & 63) == 0) fflush(file()); }
};

inline void init(int argc, char** argv) {
  Args& a = args();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--shard") a.shard = atoi(v.c_str());
    else if (k == "--nshards") a.nshards = atoi(v.c_str());
    else if (k == "--scale") a.scale = atoi(v.c_str());
    else if (k == "--out") a.out = v;
    else if (k == "--scen") a.scen = v;
    else if (k == "--tmp") a.tmp = v;
    else if (k == "--mode") a.mode = v;
  }
  if (!a.out.empty()) { file() = fopen(a.out.c_str(), "w"); if (!file()) { perror("out"); exit(3); } }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onsig);
  markbuf()[0] = 0;
}
inline uint64_t shardseed() { return args().seed * 1000003ull + args().shard * 7919ull + 17; }
inline int done() { fflush(file()); if (!args().out.empty()) fclose(file()); fprintf(stderr, "EVENTS %ld\n", count()); return 0; }

// run f, turning an exception into a recorded event the specifications reject
template <class F> bool guarded(const std::string& what, F f) {
  mark(what);
  try { f(); return true; }
  catch (std::exception& e) { Ev("exception").f("what", what).f("msg", std::string(e.what()).substr(0, 200)); }
  catch (...) { Ev("exception").f("what", what).f("msg", "unknown"); }
  return false;
}

// silence the library's chatter on stdout/stderr
struct Silence { std::streambuf *o, *e, *l; std::ofstream nul; Silence() : nul("/dev/null") { o = std::cout.rdbuf(nul.rdbuf()); e = std::cerr.rdbuf(nul.rdbuf()); l = std::clog.rdbuf(nul.rdbuf()); } ~Silence() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); } };
}
#endif
