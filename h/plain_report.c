// Called by ThreadSanitizer with its locks held: compiled without the sanitizer (see vrun.py) and
// free of calls it intercepts, because an instrumented function may wait for those locks itself.
#include "plain_report.h"
struct TsanRep tsan_reps[64]; static int nreps;
int __tsan_get_report_data(void *, const char **, int *, int *, int *, int *, int *, int *, int *, void **, unsigned long) __attribute__((weak));
int __tsan_get_report_mop(void *, unsigned long, int *, void **, int *, int *, int *, void **, unsigned long) __attribute__((weak));
int tsan_reports(void) { return __atomic_load_n(&nreps, __ATOMIC_ACQUIRE); }
void tsan_reset(void) { __atomic_store_n(&nreps, 0, __ATOMIC_RELEASE); }
void __tsan_on_report(void *r) {
  int i = tsan_reports(); if (i >= 64 || !__tsan_get_report_data || !__tsan_get_report_mop) return;
  struct TsanRep *p = &tsan_reps[i]; volatile char *b = (volatile char *)p; for (unsigned k = 0; k < sizeof *p; k++) b[k] = 0;
  const char *d = ""; int c, s, m = 0, l, u, t, ut; void *tr[4]; __tsan_get_report_data(r, &d, &c, &s, &m, &l, &u, &t, &ut, tr, 4);
  for (int k = 0; k < 63 && d[k]; k++) ((volatile char *)p->type)[k] = d[k];
  for (int k = 0; k < m && k < 2; k++) { int tid, sz, at; void *a; __tsan_get_report_mop(r, k, &tid, &a, &sz, &p->wr[k], &at, p->pc[k], 40); p->addr = a; p->n = k + 1; }
  __atomic_store_n(&nreps, i + 1, __ATOMIC_RELEASE);
}
