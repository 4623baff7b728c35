// Shared trace-recording support for the conformance drivers.
// A driver writes one ndjson line per recorded history:
//   {"k":<kind>, ... header ..., "ev":[ {event}, {event}, ... ]}
// Every event is written after the call it describes has returned.  A call that
// never returns (crash, hang, exception) is recorded as an event for which the
// specification has no action.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <list>
#include <algorithm>
#include <exception>
#include <new>
#include <cstdint>
#include <unistd.h>
#include <sys/resource.h>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull) { s = next() ^ 0xA0761D6478BD642Full; for (int i = 0; i < 2; ++i) next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return (int)(next() % (uint64_t)n); }          // 0..n-1
  int range(int a, int b) { return a + below(b - a + 1); }          // a..b
  bool chance(int pct) { return below(100) < pct; }
};

// ---------------------------------------------------------------- trace output
namespace tr {
static std::string line;      // the history being recorded
static bool open_ = false;
static bool first_ev = true;
static FILE* out = 0;
static long n_traces = 0, n_events = 0;
static const char* doing = "?";
static unsigned limit_s = 20;

inline void put_raw(const std::string& s) { line += s; }

inline void finish_raw(const char* why, int num) {
  // async context: best effort, single write
  char buf[200];
  int k = snprintf(buf, sizeof buf, "%s{\"a\":\"%s\",\"during\":\"%s\",\"num\":%d}]}\n", first_ev ? "" : ",", why, doing, num);
  if (open_ && out) {
    fflush(out);
    int fd = fileno(out);
    size_t off = 0;
    while (off < line.size()) { ssize_t w = write(fd, line.data() + off, line.size() - off); if (w <= 0) break; off += (size_t)w; }
    if (write(fd, buf, (size_t)k) < 0) {}
  }
}
inline void on_sig(int sig) {
  finish_raw(sig == SIGALRM ? "Hang" : "Crash", sig);
  _exit(sig == SIGALRM ? 71 : 70);
}
inline void on_term() { finish_raw("Crash", 0); _exit(70); }

inline void install(const char* path) {
  out = path && strcmp(path, "-") ? fopen(path, "w") : stdout;
  if (!out) { perror("open"); _exit(2); }
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM};
  for (int s : sigs) sigaction(s, &sa, 0);
  std::set_terminate(on_term);
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 3ull << 30; if (!getenv("VERIF_NOLIM")) setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
}
inline void begin(const std::string& header) {
  line = "{" + header + (header.empty() ? "" : ",") + "\"ev\":[";
  open_ = true; first_ev = true;
  alarm(limit_s);
}
inline void ev(const std::string& body) {
  if (!first_ev) line += ",";
  first_ev = false;
  line += "{" + body + "}";
  ++n_events;
}
inline void end() {
  alarm(0);
  line += "]}\n";
  open_ = false;
  fwrite(line.data(), 1, line.size(), out);
  ++n_traces;
}
inline void close() { fflush(out); fprintf(stderr, "traces=%ld events=%ld\n", n_traces, n_events); }
}

// exceptions escaping a call are recorded by the terminate handler / this guard
template <class F> void guarded(const char* what, F f) {
  tr::doing = what;
  try { f(); }
  catch (...) { tr::finish_raw("Exception", 0); _exit(70); }
}

// ---------------------------------------------------------------- JSON helpers
inline std::string S(long long v) { return std::to_string(v); }
inline std::string Q(const std::string& s) { return "\"" + s + "\""; }
template <class T> std::string arr(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); }
  return s + "]";
}
inline std::string arrs(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; }
  return s + "]";
}
inline std::string kv(const char* k, long long v) { return std::string("\"") + k + "\":" + std::to_string(v); }
inline std::string kv(const char* k, const std::string& json) { return std::string("\"") + k + "\":" + json; }
inline std::string ks(const char* k, const std::string& str) { return std::string("\"") + k + "\":\"" + str + "\""; }

// property labels: the merges are templates over the property type
template <class P> struct Lab { static P mk(int p) { return P(p); } static int un(const P& p) { return int(p); } };
template <> struct Lab<std::string> { static std::string mk(int p) { return std::string("p") + char('0' + p); } static int un(const std::string& s) { return s[1] - '0'; } };
#endif
