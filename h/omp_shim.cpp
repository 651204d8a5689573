// An OpenMP runtime made of std::threads: the thread sanitizer sees every synchronisation it makes and nothing more,
// the number of threads is chosen by the harness, and threads start and proceed at random speeds.
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <random>
#include <thread>
#include <vector>
#include <chrono>
#include <sched.h>
#include <unistd.h>
#include <cstdlib>
#include <map>
#include "omp_shim.h"
namespace shim {
int threads = 1; int perturb = 0; std::atomic<unsigned long> regions{0}, threadsRun{0}, yields{0}, points{0}, outside{0};
std::atomic<int> nextThread{0};
static thread_local unsigned long rs = 88172645463325252UL; static thread_local int tid_ = 0; static thread_local struct Team *team_ = nullptr;
unsigned long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
void reseed(unsigned long s) { rs = s * 0x9E3779B97F4A7C15UL + 0x1234567; for (int i = 0; i < 4; i++) rnd(); }
// where a thread may lose the processor
static std::atomic<unsigned long> order{0}; static std::atomic<int> last{-1};
unsigned long orderHash() { return order.load(std::memory_order_relaxed); }
void resetOrder() { order.store(14695981039346656037UL, std::memory_order_relaxed); last.store(-1, std::memory_order_relaxed); }
std::atomic<long> actAt{-1}; void (*act)() = nullptr; // something to do at the n-th point, in whichever thread arrives there
void point() {
  if (!team_) { outside.fetch_add(1, std::memory_order_relaxed); return; } points.fetch_add(1, std::memory_order_relaxed);
  if (actAt.load(std::memory_order_relaxed) >= 0 && actAt.fetch_sub(1, std::memory_order_relaxed) == 0) act();
  if (last.exchange(tid_, std::memory_order_relaxed) != tid_) order.store((order.load(std::memory_order_relaxed) ^ (unsigned)(tid_ + 1)) * 1099511628211UL, std::memory_order_relaxed);
  if (!perturb) return; unsigned long x = rnd() % 100000; if (x < (unsigned)perturb * 10) { yields.fetch_add(1, std::memory_order_relaxed); if (x % 37 == 0) { struct timespec t{0, (long)(rnd() % 200000)}; nanosleep(&t, nullptr); } else sched_yield(); }
}
struct Team {
  int n; std::atomic<int> arrived{0}; std::mutex m; std::condition_variable cv; int count = 0, gen = 0;
  std::mutex lm; struct Loop { long start, end, incr, chunk; std::atomic<long> next; bool dyn; int left; }; std::map<int, Loop *> loops; std::map<int, int> singles;
  explicit Team(int k) : n(k) {}
  ~Team() { for (auto &x : loops) delete x.second; }
  void barrier() { std::unique_lock<std::mutex> l(m); int g = gen; if (++count == n) { count = 0; gen++; cv.notify_all(); } else cv.wait(l, [&] { return g != gen; }); }
};
static thread_local int loopNo = 0, singleNo = 0; static thread_local bool staticDone = false; static thread_local Team::Loop *cur = nullptr;
static std::recursive_mutex crit, atom; static std::mutex namedM; static std::map<void *, std::recursive_mutex *> named;
static void runTeam(void (*fn)(void *), void *data, int n, void (*init)(Team &, void *), void *ia) {
  regions.fetch_add(1, std::memory_order_relaxed); if (team_) n = 1; Team t(n); if (init) init(t, ia); std::vector<std::thread> th; int myTid = tid_; Team *old = team_; int ol = loopNo, os = singleNo; auto *oc = cur; unsigned long base = rnd(), savedRs = rs;
  auto body = [&](int i) { tid_ = i; team_ = &t; loopNo = 0; singleNo = 0; cur = nullptr; threadsRun.fetch_add(1, std::memory_order_relaxed); if (i) reseed(base + i); if (perturb && n > 1) { unsigned long k = rnd() % 3; if (k == 1) sched_yield(); else if (k == 2) { struct timespec q{0, (long)(rnd() % 500000)}; nanosleep(&q, nullptr); } } fn(data); };
  for (int i = 1; i < n; i++) th.emplace_back(body, i); body(0); for (auto &x : th) x.join(); tid_ = myTid; team_ = old; loopNo = ol; singleNo = os; cur = oc; (void)savedRs;
}
static Team::Loop *mk(long s, long e, long inc, long c, bool dyn, int n) { auto *l = new Team::Loop; l->start = s; l->end = e; l->incr = inc; l->chunk = c > 0 ? c : 1; l->next.store(0, std::memory_order_relaxed); l->dyn = dyn; l->left = n; return l; }
static bool nextChunk(long *a, long *b) {
  auto *l = cur; if (!l) return false; long total = l->incr > 0 ? (l->end - l->start + l->incr - 1) / l->incr : (l->end - l->start + l->incr + 1) / l->incr; if (total < 0) total = 0;
  long f, g; if (l->dyn) { point(); f = l->next.fetch_add(l->chunk, std::memory_order_relaxed); if (f >= total) return false; g = std::min(total, f + l->chunk); }
  else { if (staticDone) return false; staticDone = true; int n = team_ ? team_->n : 1; long q = (total + n - 1) / n; f = q * tid_; if (f >= total) return false; g = std::min(total, f + q); }
  *a = l->start + f * l->incr; *b = l->start + g * l->incr; return true;
}
static bool enter(long s, long e, long inc, long c, bool dyn, long *a, long *b) {
  staticDone = false; if (!team_) { static thread_local Team one(1); team_ = nullptr; cur = mk(s, e, inc, c, dyn, 1); return nextChunk(a, b); }
  { std::lock_guard<std::mutex> g(team_->lm); auto &x = team_->loops[loopNo]; if (!x) x = mk(s, e, inc, c, dyn, team_->n); cur = x; } loopNo++; return nextChunk(a, b);
}
struct LI { long s, e, i, c; bool d; };
}
using namespace shim;
extern "C" {
int omp_get_thread_num() { return tid_; }
int omp_get_num_threads() { return team_ ? team_->n : 1; }
int omp_get_max_threads() { return shim::threads; }
int omp_get_num_procs() { return shim::threads; }
int omp_in_parallel() { return team_ && team_->n > 1; }
void omp_set_num_threads(int) {}
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_nested() { return 0; } void omp_set_nested(int) {} int omp_get_thread_limit() { return 64; } int omp_get_level() { return team_ ? 1 : 0; }
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void omp_init_lock(void **l) { *l = new std::mutex; } void omp_destroy_lock(void **l) { delete (std::mutex *)*l; } void omp_set_lock(void **l) { ((std::mutex *)*l)->lock(); } void omp_unset_lock(void **l) { ((std::mutex *)*l)->unlock(); } int omp_test_lock(void **l) { return ((std::mutex *)*l)->try_lock(); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { runTeam(fn, data, n ? std::min<int>(n, shim::threads) : shim::threads, nullptr, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned f) { GOMP_parallel(fn, data, n, f); return shim::threads; }
#define PLOOP(NAME, DYN) void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long c, unsigned) { LI li{s, e, inc, c, DYN}; runTeam(fn, data, n ? std::min<int>(n, shim::threads) : shim::threads, [](Team &t, void *p) { auto &q = *(LI *)p; t.loops[0] = mk(q.s, q.e, q.i, q.c, q.d, t.n); }, &li); }
PLOOP(static, false) PLOOP(dynamic, true) PLOOP(guided, true) PLOOP(nonmonotonic_dynamic, true) PLOOP(nonmonotonic_guided, true)
#define PLOOPR(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, inc, 1, f); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
// inside a combined construct the threads call *_next only, on the loop made at the start
static bool nx(long *a, long *b) { if (!cur && team_) { std::lock_guard<std::mutex> g(team_->lm); auto f = team_->loops.find(loopNo); if (f == team_->loops.end()) return false; cur = f->second; loopNo++; staticDone = false; } return nextChunk(a, b); }
#define LOOP(NAME, DYN) bool GOMP_loop_##NAME##_start(long s, long e, long inc, long c, long *a, long *b) { return enter(s, e, inc, c, DYN, a, b); } bool GOMP_loop_##NAME##_next(long *a, long *b) { return nx(a, b); }
LOOP(static, false) LOOP(dynamic, true) LOOP(guided, true) LOOP(nonmonotonic_dynamic, true) LOOP(nonmonotonic_guided, true)
#define LOOPR(NAME) bool GOMP_loop_##NAME##_start(long s, long e, long inc, long *a, long *b) { return enter(s, e, inc, 1, true, a, b); } bool GOMP_loop_##NAME##_next(long *a, long *b) { return nx(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define ULL(NAME, DYN) bool GOMP_loop_ull_##NAME##_start(bool, unsigned long s, unsigned long e, unsigned long inc, unsigned long c, unsigned long *a, unsigned long *b) { return enter(s, e, inc, c, DYN, (long *)a, (long *)b); } bool GOMP_loop_ull_##NAME##_next(unsigned long *a, unsigned long *b) { return nx((long *)a, (long *)b); }
ULL(static, false) ULL(dynamic, true) ULL(guided, true) ULL(nonmonotonic_dynamic, true) ULL(nonmonotonic_guided, true)
void GOMP_barrier() { if (team_) team_->barrier(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
void GOMP_loop_end() { cur = nullptr; GOMP_barrier(); } void GOMP_loop_end_nowait() { cur = nullptr; } bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
bool GOMP_single_start() { if (!team_) return true; std::lock_guard<std::mutex> g(team_->lm); return team_->singles[singleNo++]++ == 0; }
void GOMP_critical_start() { crit.lock(); } void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void **p) { std::recursive_mutex *m; { std::lock_guard<std::mutex> g(namedM); auto &x = named[p]; if (!x) x = new std::recursive_mutex; m = x; } m->lock(); }
void GOMP_critical_name_end(void **p) { std::recursive_mutex *m; { std::lock_guard<std::mutex> g(namedM); m = named[p]; } m->unlock(); }
void GOMP_atomic_start() { atom.lock(); } void GOMP_atomic_end() { atom.unlock(); }
void GOMP_task(void (*fn)(void *), void *data, void (*cp)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) { if (cp) { char *b = (char *)malloc(sz + al); char *q = (char *)(((unsigned long)b + al - 1) & ~(al - 1)); cp(q, data); fn(q); free(b); } else fn(data); }
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {} void GOMP_ordered_start() { crit.lock(); } void GOMP_ordered_end() { crit.unlock(); }
bool GOMP_cancellation_point(int) { return false; } bool GOMP_cancel(int, bool) { return false; }
}
// allocation is the event every estimation makes often
#include <new>
#ifndef SHIM_NO_NEW
void *operator new(std::size_t n) { shim::point(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); } void operator delete(void *p, std::size_t) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete[](void *p, std::size_t) noexcept { free(p); }
#endif
// what the linear algebra library reads and writes, which the sanitizer cannot see by itself
#include <dlfcn.h>
extern "C" void __tsan_read_range(void *, unsigned long) __attribute__((weak)); extern "C" void __tsan_write_range(void *, unsigned long) __attribute__((weak));
static void rd(const double *p, long n) { if (__tsan_read_range && p && n > 0) __tsan_read_range((void *)p, n * 8); }
static void wr(double *p, long n) { if (__tsan_write_range && p && n > 0) __tsan_write_range((void *)p, n * 8); }
#define REAL(T, name) static T real = (T)dlsym(RTLD_NEXT, name)
extern "C" {
typedef void (*gemm_t)(const char *, const char *, const int *, const int *, const int *, const double *, const double *, const int *, const double *, const int *, const double *, double *, const int *, unsigned long, unsigned long);
void dgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const double *al, const double *A, const int *lda, const double *B, const int *ldb, const double *be, double *C, const int *ldc) { REAL(gemm_t, "dgemm_"); point(); rd(A, (long)*m * *k); rd(B, (long)*k * *n); if (*be != 0) rd(C, (long)*m * *n); real(ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc, 1, 1); wr(C, (long)*m * *n); }
typedef void (*gemv_t)(const char *, const int *, const int *, const double *, const double *, const int *, const double *, const int *, const double *, double *, const int *, unsigned long);
void dgemv_(const char *t, const int *m, const int *n, const double *al, const double *A, const int *lda, const double *x, const int *ix, const double *be, double *y, const int *iy) { REAL(gemv_t, "dgemv_"); point(); bool tr = *t == 'T' || *t == 't'; rd(A, (long)*m * *n); if (*ix == 1) rd(x, tr ? *m : *n); real(t, m, n, al, A, lda, x, ix, be, y, iy, 1); if (*iy == 1) wr(y, tr ? *n : *m); }
typedef void (*syrk_t)(const char *, const char *, const int *, const int *, const double *, const double *, const int *, const double *, double *, const int *, unsigned long, unsigned long);
void dsyrk_(const char *u, const char *t, const int *n, const int *k, const double *al, const double *A, const int *lda, const double *be, double *C, const int *ldc) { REAL(syrk_t, "dsyrk_"); point(); rd(A, (long)*n * *k); real(u, t, n, k, al, A, lda, be, C, ldc, 1, 1); wr(C, *n); }
typedef void (*getrf_t)(const int *, const int *, double *, const int *, int *, int *);
void dgetrf_(const int *m, const int *n, double *A, const int *lda, int *p, int *info) { REAL(getrf_t, "dgetrf_"); point(); rd(A, (long)*m * *n); real(m, n, A, lda, p, info); wr(A, (long)*m * *n); wr((double *)p, std::min(*m, *n) / 2); }
typedef void (*getri_t)(const int *, double *, const int *, const int *, double *, const int *, int *);
void dgetri_(const int *n, double *A, const int *lda, const int *p, double *w, const int *lw, int *info) { REAL(getri_t, "dgetri_"); point(); rd(A, (long)*n * *n); real(n, A, lda, p, w, lw, info); wr(A, (long)*n * *n); wr(w, 1); }
}
