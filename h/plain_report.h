#pragma once
// Reports of ThreadSanitizer, kept by plain_report.c.
#ifdef __cplusplus
extern "C" {
#endif
struct TsanRep { char type[64]; void *addr; void *pc[2][40]; int wr[2]; int n; };
extern struct TsanRep tsan_reps[64];
int tsan_reports(void); void tsan_reset(void);
#ifdef __cplusplus
}
#endif
