#ifndef MC_COMMON_H
#define MC_COMMON_H
#include "mc.h"
#include <pthread.h>
#include <vector>
/* run f(0..n-1) on n threads (the caller is number 0) */
struct McTask { void (*f)(int, void*); int i; void* p; };
static inline void* mc_task_main(void* a) { McTask* t = (McTask*)a; t->f(t->i, t->p); return 0; }
static inline void mc_parallel(int n, void (*f)(int, void*), void* p = 0)
{
	McTask t[8]; pthread_t id[8];
	for (int i = 0; i < n; i++) { t[i].f = f; t[i].i = i; t[i].p = p; }
	for (int i = 1; i < n; i++) pthread_create(&id[i], 0, mc_task_main, &t[i]);
	f(0, p);
	for (int i = 1; i < n; i++) pthread_join(id[i], 0);
}
#endif
