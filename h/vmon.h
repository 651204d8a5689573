// Monitor runtime shared by all harnesses: case loop, seeded RNG, violation log, coverage counters.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#ifdef VMON_UNDEF // run under memcheck: work arrays are marked as never set
#include <valgrind/memcheck.h>
#endif
#include <fcntl.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vm {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }        // [0,1)
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
  bool b(double p = 0.5) { return u() < p; }
  double n() { // standard normal
    double a = 1.0 - u(), b = u();
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, (int)l.size() - 1)); }
  template <class T> const T &pick(const std::vector<T> &l) { return l[i(0, (int)l.size() - 1)]; }
  template <class T> void shuffle(std::vector<T> &v) { for (int k = (int)v.size() - 1; k > 0; k--) std::swap(v[k], v[i(0, k)]); }
  std::vector<int> perm(int n) { std::vector<int> v(n); for (int k = 0; k < n; k++) v[k] = k; shuffle(v); return v; }
};

inline uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t k = 0; k < n; k++) { h ^= c[k]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hashs(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash64(s.data(), s.size(), h); }

inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline std::string str(const std::vector<double> &v) { std::string s = "["; for (size_t k = 0; k < v.size() && k < 40; k++) s += fmt(k ? ",%.10g" : "%.10g", v[k]); return s + "]"; }
inline std::string str(const std::vector<int> &v) { std::string s = "["; for (size_t k = 0; k < v.size() && k < 40; k++) s += fmt(k ? ",%d" : "%d", v[k]); return s + "]"; }

// relative/absolute closeness; NaN==NaN, inf==inf of the same sign
inline bool close(double a, double b, double rt = 1e-9, double at = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= at + rt * std::max(std::fabs(a), std::fabs(b));
}
inline bool close(const std::vector<double> &a, const std::vector<double> &b, double rt = 1e-9, double at = 1e-12) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); k++) if (!close(a[k], b[k], rt, at)) return false;
  return true;
}

struct Skip {};   // thrown by a case to say: the generated input is outside the property's domain

class Mon {
public:
  uint64_t seed = 1; int shard = 0, nshards = 1; bool thorough = false; double scale = 1;
  std::string outPath, only_section, resume_section; long only_case = -1, resume_case = -1;
  FILE *out = nullptr; char *cur = nullptr; // shared mmap: current case
  std::map<std::string, long> counters; std::unordered_set<uint64_t> seen;
  std::map<std::string, int> vcount; long evals = 0, skipped = 0, nviol = 0; int nsamples = 0;
  std::string section_name; long case_no = 0; bool resuming = false; int cpu_limit = 60;
#ifdef VMON_UNDEF
  static long &unset() { static long n = 0; return n; }
#endif
  std::mutex mx;
  std::vector<std::string> sections_filter;

  static Mon *&self() { static Mon *p = nullptr; return p; }

  Mon(int argc, char **argv) {
    self() = this;
    for (int k = 1; k < argc; k++) {
      std::string a = argv[k]; auto val = [&]() { return std::string(argv[++k]); };
      if (a == "--seed") seed = std::stoull(val());
      else if (a == "--shard") shard = std::stoi(val());
      else if (a == "--nshards") nshards = std::stoi(val());
      else if (a == "--tier") thorough = val() == "thorough";
      else if (a == "--scale") scale = std::stod(val());
      else if (a == "--out") outPath = val();
      else if (a == "--only") { auto v = val(); auto p = v.rfind(':'); only_section = v.substr(0, p); only_case = std::stol(v.substr(p + 1)); }
      else if (a == "--resume") { auto v = val(); auto p = v.rfind(':'); resume_section = v.substr(0, p); resume_case = std::stol(v.substr(p + 1)); resuming = true; }
      else if (a == "--sections") { std::stringstream ss(val()); std::string t; while (std::getline(ss, t, ',')) sections_filter.push_back(t); }
    }
    out = outPath.empty() ? stdout : fopen(outPath.c_str(), resuming ? "a" : "w");
    if (!out) { perror("out"); exit(3); }
    if (!outPath.empty()) {
      int fd = open((outPath + ".cur").c_str(), O_RDWR | O_CREAT, 0644);
      if (fd < 0 || ftruncate(fd, 4096)) exit(3);
      cur = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close_fd(fd);
    }
  }
  static void close_fd(int fd) { ::close(fd); }

  void note(const std::string &extra) { // extra description of the current case, survives a crash
    if (cur) { snprintf(cur + 128, 3900, "%s", extra.c_str()); }
  }

  template <class F> void section(const std::string &name, long nq, long nt, F f) {
    if (!sections_filter.empty() && std::find(sections_filter.begin(), sections_filter.end(), name) == sections_filter.end()) return;
    if (!only_section.empty() && only_section != name) return;
    long n = (long)((thorough ? nt : nq) * scale); if (n < 1) n = 1;
    long start = shard;
    if (resuming) { if (name != resume_section) return; start = resume_case; resuming = false; }
    section_name = name;
    if (only_case >= 0) { one(name, only_case, f); return; }
    for (long k = start; k < n; k += nshards) one(name, k, f);
  }
  template <class F> void one(const std::string &name, long k, F f) {
    case_no = k;
    if (cur) { cur[128] = 0; snprintf(cur, 128, "%s:%ld", name.c_str(), k); }
    Rng r(hashs(name) ^ (seed * 0x9E3779B97F4A7C15ULL) ^ ((uint64_t)k * 0xD1B54A32D192ED03ULL));
#ifdef VMON_UNDEF
    unsigned long before = VALGRIND_COUNT_ERRORS; cpu_limit = 600; if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under memcheck\n"); exit(3); }
#endif
    itimerval it{}; it.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &it, nullptr);
    try { f(r); evals++; counters["section." + name]++; }
    catch (const Skip &) { skipped++; counters["skipped." + name]++; }
    catch (const std::exception &e) { evals++; viol("exception." + name, std::string("unexpected exception: ") + e.what()); }
    catch (...) { evals++; viol("exception." + name, "unexpected unknown exception"); }
    itimerval z{}; setitimer(ITIMER_PROF, &z, nullptr);
#ifdef VMON_UNDEF
    unsigned long errs = VALGRIND_COUNT_ERRORS; if (errs != before) viol("undef." + name, std::to_string(errs - before) + " times an element that was never set decides a branch, an address or an output (or memory is misused): " + (cur ? cur + 128 : ""));
#endif
    if ((evals & 63) == 0) flush_seen(false);
  }
  static std::string clean(std::string s) { for (auto &c : s) if (c == '\t' || c == '\n' || c == '\r') c = ' '; return s; }
  void viol(const std::string &key, const std::string &detail) {
#ifdef VMON_UNDEF // values are judged by the other checks: memcheck has no extended precision
    if (key.compare(0, 6, "undef.") != 0) return;
#endif
    std::lock_guard<std::mutex> g(mx);
    nviol++;
    if (vcount[key]++ < 4) { fprintf(out, "V\t%s\t%s:%ld\t%s\n", key.c_str(), section_name.c_str(), case_no, clean(detail).substr(0, 3000).c_str()); fflush(out); }
  }
  void count(const std::string &n, long k = 1) { std::lock_guard<std::mutex> g(mx); counters[n] += k; }
  void distinct(uint64_t h) { std::lock_guard<std::mutex> g(mx); seen.insert(h); }
  void distinct(const std::string &s) { distinct(hashs(s)); }
  bool sample(const std::string &s) { if (nsamples < 3) { nsamples++; fprintf(out, "S\t%s:%ld\t%s\n", section_name.c_str(), case_no, clean(s).substr(0, 1500).c_str()); return true; } return false; }
  void flush_seen(bool) {}
  int done() {
#ifdef VMON_UNDEF
    counters["elements_unset"] += unset();
#endif
    for (auto &kv : counters) fprintf(out, "C\t%s\t%ld\n", kv.first.c_str(), kv.second);
    for (auto h : seen) fprintf(out, "D\t%016llx\n", (unsigned long long)h);
    fprintf(out, "E\t%ld\t%ld\n", evals, skipped);
    fprintf(out, "DONE\n"); fflush(out);
    if (cur) cur[0] = 0;
    if (outPath.empty()) fprintf(stderr, "evals=%ld skipped=%ld violations=%ld distinct=%zu\n", evals, skipped, nviol, seen.size());
    _exit(0);
  }
};

#define VCHECK(cond, key, ...) do { if (!(cond)) vm::Mon::self()->viol((key), vm::fmt(__VA_ARGS__)); } while (0)
#define VEQ(a, b, key, rt, at, what) do { double _a = (a), _b = (b); if (!vm::close(_a, _b, rt, at)) vm::Mon::self()->viol((key), vm::fmt("%s: got %.17g expected %.17g", std::string(what).c_str(), _a, _b)); } while (0)

inline Mon &mon() { return *Mon::self(); }

// heap block of exactly n items pre-filled with a poison value: ASan sees any access outside, and the
// pre-fill shows any dependence on what the buffer held before
struct Buf {
  double *p; size_t n;
  Buf(size_t n_, double fill = 0) : n(n_) { p = (double *)malloc(std::max<size_t>(n, 0) * sizeof(double) + (n ? 0 : 1)); for (size_t k = 0; k < n; k++) p[k] = fill;
#ifdef VMON_UNDEF
    if (n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n * sizeof(double)); Mon::unset() += (long)n; }
#endif
  }
  Buf(const std::vector<double> &v) : Buf(v.size()) { for (size_t k = 0; k < n; k++) p[k] = v[k]; }
  Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
  ~Buf() { free(p); }
  double &operator[](size_t k) { return p[k]; }
  std::vector<double> vec() const { return std::vector<double>(p, p + n); }
  operator double *() { return p; }
};
inline double fillOf(int k) { switch (k % 4) { case 0: return 0; case 1: return std::numeric_limits<double>::quiet_NaN(); case 2: return 1e300; default: return -7.5; } }

} // namespace vm

// every illegal argument a BLAS/LAPACK routine detects is a violation
#ifndef VMON_NO_XERBLA
extern "C" void xerbla_(const char *name, int *info, int len) {
  std::string n(name, std::min(len > 0 ? len : 6, 16)); while (!n.empty() && n.back() == ' ') n.pop_back();
  if (vm::Mon::self()) vm::Mon::self()->viol("lapack." + n, vm::fmt("BLAS/LAPACK routine %s was given an illegal argument number %d", n.c_str(), *info));
}
#endif
