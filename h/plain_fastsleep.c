/* Preloaded in the checks of the R packages: the searches poll their progress once a second; sleep at most 3 ms. */
#define _GNU_SOURCE
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
static struct timespec cap(const struct timespec *t) { struct timespec r = *t; if (r.tv_sec > 0 || r.tv_nsec > 3000000) { r.tv_sec = 0; r.tv_nsec = 3000000; } return r; }
int nanosleep(const struct timespec *a, struct timespec *b) { struct timespec t = cap(a); (void)b; return (int)syscall(SYS_nanosleep, &t, (void *)0); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (f & TIMER_ABSTIME) return (int)syscall(SYS_clock_nanosleep, c, f, a, b) < 0 ? -1 : 0;
  struct timespec t = cap(a); (void)b; return (int)syscall(SYS_clock_nanosleep, c, f, &t, (void *)0) < 0 ? -1 : 0; }
/* limits of one case, called from vmon.R: seconds of CPU time, and of wall-clock time (a search that never reports its end) */
#include <signal.h>
#include <sys/time.h>
void vm_limit(int *cpu, int *wall) {
  static timer_t t; static int have; struct itimerval v = {{0, 0}, {*cpu, 0}}; struct itimerspec w = {{0, 0}, {*wall, 0}}; struct sigevent e = {0};
  setitimer(ITIMER_PROF, &v, (void *)0);
  if (!have) { e.sigev_notify = SIGEV_SIGNAL; e.sigev_signo = SIGPROF; have = !timer_create(CLOCK_MONOTONIC, &e, &t); }
  if (have) timer_settime(t, 0, &w, (void *)0);
}
