/* Simulated threads, locks, atomics, memory functions. */
#include "rt.h"
#include "mc.h"
#include <pthread.h>
#include <sched.h>
#include <cerrno>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <cstdlib>
#include <cxxabi.h>

#define RA ((uintptr_t)__builtin_return_address(0))
#define W(n) __wrap_##n
static u64 lkey(const void* p) { return (u64)(uintptr_t)p; }
static u64 trykey(const void* p) { return mkkey(2, (u64)(uintptr_t)p); }
static void sync_use(void* p, size_t n, bool init, uintptr_t pc) { if (cur) mem_access((uintptr_t)p, n, init, pc); }

/* -------------------------------------------------- mutex and spin lock */
struct Mtx { u32 state, owner, kind, dead; };
static bool en_mtx(Fiber* f) { return ((Mtx*)f->pa[0])->state == 0; }
static const u32 SP = 0x5B000000, SPDEAD = 0x5C000000;
static bool en_spin(Fiber* f) { return *(u32*)f->pa[0] == SP; }
static void lock_generic(void* p, bool spin, uintptr_t pc, bool tryit, int& r) {
	u32* s = (u32*)p;
	bool pt = false;
	on_rt([&] {
		sync_use(p, 4, false, pc);
		if (spin && (*s >> 24) != 0x5B) violate("lock misuse", "locking a spin lock that is %s", *s == SPDEAD ? "destroyed" : "not initialised");
		if (!spin && ((Mtx*)p)->dead) violate("lock misuse", "locking a destroyed mutex");
		discover(lkey(p));
		pt = key_shared(lkey(p));
		if (tryit && pt) force_share(trykey(p));
	});
	bool free = spin ? *s == SP : ((Mtx*)p)->state == 0;
	if (!spin && ((Mtx*)p)->kind == PTHREAD_MUTEX_RECURSIVE && ((Mtx*)p)->owner == (u32)(cur ? cur->id + 1 : 99) && ((Mtx*)p)->state) { ((Mtx*)p)->state++; r = 0; return; }
	if (tryit) { if (pt) sched(spin ? "spin_trylock" : "mutex_trylock", 0, (u64)p); }
	else if (pt || !free) sched(spin ? "spin_lock" : "mutex_lock", spin ? en_spin : en_mtx, (u64)p);
	on_rt([&] {
		touch(lkey(p), true);
		free = spin ? *s == SP : ((Mtx*)p)->state == 0;
		if (!free) { r = EBUSY; return; }
		acquire(lkey(p));
		if (spin) *s = SP | (cur ? cur->id + 1 : 0x80); else { ((Mtx*)p)->state = 1; ((Mtx*)p)->owner = cur ? cur->id + 1 : 99; }
		r = 0;
	});
}
static void unlock_generic(void* p, bool spin, uintptr_t pc) {
	bool pt = false;
	on_rt([&] {
		sync_use(p, 4, false, pc);
		pt = key_shared(trykey(p));
	});
	if (pt) sched(spin ? "spin_unlock" : "mutex_unlock", 0, (u64)p);
	on_rt([&] {
		touch(lkey(p), true);
		if (spin) {
			if (*(u32*)p == SP || (*(u32*)p >> 24) != 0x5B) violate("lock misuse", "unlocking a spin lock that is not locked");
			*(u32*)p = SP;
		} else {
			Mtx* m = (Mtx*)p;
			if (!m->state) violate("lock misuse", "unlocking a mutex that is not locked");
			if (cur && m->owner != (u32)cur->id + 1) violate("lock misuse", "unlocking a mutex held by thread %d", (int)m->owner - 1);
			if (--m->state) return;
			m->owner = 0;
		}
		release(lkey(p));
	});
}
extern "C" {
int W(pthread_spin_init)(pthread_spinlock_t* l, int) { uintptr_t pc = RA; on_rt([&] { sync_use((void*)l, 4, true, pc); *(u32*)l = SP; }); return 0; }
int W(pthread_spin_destroy)(pthread_spinlock_t* l) {
	uintptr_t pc = RA;
	on_rt([&] {
		sync_use((void*)l, 4, true, pc);
		if ((*(u32*)l >> 24) != 0x5B) violate("lock misuse", "destroying a spin lock that is not initialised");
		if (*(u32*)l != SP) violate("lock misuse", "destroying a locked spin lock");
		*(u32*)l = SPDEAD;
	});
	return 0;
}
int W(pthread_spin_lock)(pthread_spinlock_t* l) { int r; lock_generic((void*)l, true, RA, false, r); return r; }
int W(pthread_spin_trylock)(pthread_spinlock_t* l) { int r; lock_generic((void*)l, true, RA, true, r); return r; }
int W(pthread_spin_unlock)(pthread_spinlock_t* l) { unlock_generic((void*)l, true, RA); return 0; }
int W(pthread_mutex_init)(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
	uintptr_t pc = RA;
	on_rt([&] { sync_use(m, sizeof *m, true, pc); memset(m, 0, sizeof *m); if (a) ((Mtx*)m)->kind = *(const u32*)a; });
	return 0;
}
int W(pthread_mutex_destroy)(pthread_mutex_t* m) {
	uintptr_t pc = RA;
	on_rt([&] {
		sync_use(m, sizeof *m, true, pc);
		if (((Mtx*)m)->state) violate("lock misuse", "destroying a locked mutex");
		if (((Mtx*)m)->dead) violate("lock misuse", "destroying a mutex twice");
		((Mtx*)m)->dead = 1;
	});
	return 0;
}
int W(pthread_mutex_lock)(pthread_mutex_t* m) { int r; lock_generic(m, false, RA, false, r); return r; }
int W(pthread_mutex_trylock)(pthread_mutex_t* m) { int r; lock_generic(m, false, RA, true, r); return r; }
int W(pthread_mutex_unlock)(pthread_mutex_t* m) { unlock_generic(m, false, RA); return 0; }
int W(pthread_mutexattr_init)(pthread_mutexattr_t* a) { memset(a, 0, sizeof *a); return 0; }
int W(pthread_mutexattr_destroy)(pthread_mutexattr_t*) { return 0; }
int W(pthread_mutexattr_settype)(pthread_mutexattr_t* a, int t) { *(u32*)a = t; return 0; }

/* -------------------------------------------------------------- conditions */
int W(pthread_cond_init)(pthread_cond_t* c, const pthread_condattr_t*) { uintptr_t pc = RA; on_rt([&] { sync_use(c, sizeof *c, true, pc); memset(c, 0, sizeof *c); }); return 0; }
int W(pthread_cond_destroy)(pthread_cond_t* c) {
	uintptr_t pc = RA;
	on_rt([&] {
		sync_use(c, sizeof *c, true, pc);
		for (int i = 0; i < MAXF; i++) if (fibers[i].st == F_READY && fibers[i].x[0] == (u64)c && !fibers[i].x[1]) violate("lock misuse", "destroying a condition with waiting threads");
	});
	return 0;
}
}
static bool en_cond(Fiber* f) { return ((Mtx*)f->pa[1])->state == 0 && (f->x[1] || f->spur > 0); }
static bool en_condt(Fiber* f) { return ((Mtx*)f->pa[1])->state == 0; }
static int cond_wait(void* c, void* m, uintptr_t pc, bool timed) {
	if (!cur) return 0;
	bool pt = false;
	on_rt([&] { sync_use(c, 4, false, pc); sync_use(m, 4, false, pc); discover(lkey(c)); pt = key_shared(lkey(c)); });
	if (pt) sched("cond_wait (enter)", 0, (u64)c);
	on_rt([&] {
		Mtx* x = (Mtx*)m;
		if (!x->state || x->owner != (u32)cur->id + 1) violate("lock misuse", "waiting for a condition without holding the mutex");
		touch(lkey(c), true); touch(lkey(m), true);
		x->state = 0; x->owner = 0; release(lkey(m));
		cur->x[0] = (u64)c; cur->x[1] = 0;
	});
	sched("cond_wait", timed ? en_condt : en_cond, (u64)c, (u64)m);
	int r = 0;
	on_rt([&] {
		touch(lkey(c), true); touch(lkey(m), true);
		if (!cur->x[1]) { if (timed) r = ETIMEDOUT; else { cur->spur--; note("spurious wake-up"); } }
		cur->x[0] = cur->x[1] = 0;
		Mtx* x = (Mtx*)m; x->state = 1; x->owner = cur->id + 1; acquire(lkey(m));
	});
	return r;
}
static int cond_signal(void* c, bool all, uintptr_t pc) {
	bool pt = false;
	on_rt([&] { sync_use(c, 4, false, pc); discover(lkey(c)); pt = key_shared(lkey(c)); });
	if (pt) sched(all ? "cond_broadcast" : "cond_signal", 0, (u64)c);
	int n = 0; for (int i = 0; i < MAXF; i++) if (fibers[i].st == F_READY && fibers[i].x[0] == (u64)c && !fibers[i].x[1]) n++;
	int pick = all || n < 2 ? -1 : choose(n, "woken thread");
	on_rt([&] {
		touch(lkey(c), true);
		int k = 0;
		for (int i = 0; i < MAXF; i++) if (fibers[i].st == F_READY && fibers[i].x[0] == (u64)c && !fibers[i].x[1]) { if (pick < 0 || pick == k) fibers[i].x[1] = 1; k++; }
	});
	return 0;
}
extern "C" {
int W(pthread_cond_wait)(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, RA, false); }
int W(pthread_cond_timedwait)(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, RA, true); }
int W(pthread_cond_signal)(pthread_cond_t* c) { return cond_signal(c, false, RA); }
int W(pthread_cond_broadcast)(pthread_cond_t* c) { return cond_signal(c, true, RA); }
}
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) { cond_wait(native_handle(), l.mutex()->native_handle(), RA, false); }
void std::condition_variable::notify_one() noexcept { cond_signal(native_handle(), false, RA); }
void std::condition_variable::notify_all() noexcept { cond_signal(native_handle(), true, RA); }

/* ----------------------------------------------------------------- threads */
static bool en_join(Fiber* f) { return fibers[f->pa[0]].st == F_DONE; }
static int join_id(int id, void** ret) {
	sched("thread_join", en_join, id);
	on_rt([&] {
		Fiber* f = &fibers[id];
		touch(mkkey(1, id), true);
		if (f->joined) violate("lock misuse", "joining a thread twice");
		f->joined = true; acquire(mkkey(1, id));
		if (ret) *ret = f->ret;
	});
	return 0;
}
static int create(void* (*fn)(void*), void* arg) {
	int id = -1;
	on_rt([&] { Fiber* f = new_fiber(cur->rank, fn, arg, cur); id = f->id; f->cpu = cur->cpu; });
	return id;
}
extern "C" {
int W(pthread_create)(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
	if (cfgi("fault_create", 0) && choose(2, "thread creation fails")) return EAGAIN;
	int id = create(fn, arg);
	on_rt([&] { mem_access((uintptr_t)t, sizeof *t, true, 0); });
	*t = id + 1; return 0;
}
int W(pthread_join)(pthread_t t, void** ret) {
	int id = (int)t - 1;
	if (id < 0 || id >= MAXF || fibers[id].st == F_NONE) { on_rt([&] { violate("lock misuse", "joining an invalid thread"); }); }
	return join_id(id, ret);
}
int W(pthread_detach)(pthread_t) { return 0; }
pthread_t W(pthread_self)(void) { return cur ? cur->id + 1 : 1; }
int W(pthread_equal)(pthread_t a, pthread_t b) { return a == b; }
int W(pthread_setaffinity_np)(pthread_t t, size_t n, const cpu_set_t* s) {
	long c = -1; int cnt = 0; for (int i = 0; i < 1024; i++) if (CPU_ISSET_S(i, n, s)) { c = i; cnt++; }
	mc_ghost_set(255, cnt == 1 ? c + 1 : -cnt - 1); // 1 + cpu
	long n_cpu = cfgi("ncpus", 4);
	return c >= 0 && c < n_cpu ? 0 : EINVAL;
}
int W(sched_yield)(void) { sched("sched_yield"); return 0; }
int W(usleep)(unsigned) { sched("usleep"); return 0; }
int W(nanosleep)(const struct timespec*, struct timespec*) { sched("nanosleep"); return 0; }
int W(pthread_once)(pthread_once_t* o, void (*fn)(void)) {
	int st = 0;
	struct E { static bool en(Fiber* f) { return *(int*)f->pa[0] != 1; } };
	bool pt = false;
	on_rt([&] { discover(lkey(o)); pt = key_shared(lkey(o)); });
	if (pt || *(int*)o == 1) sched("once", E::en, (u64)o);
	on_rt([&] { touch(lkey(o), true); st = *(int*)o; if (!st) *(int*)o = 1; else acquire(lkey(o)); });
	if (!st) { fn(); on_rt([&] { touch(lkey(o), true); *(int*)o = 2; release(lkey(o)); }); }
	return 0;
}
/* thread-specific data: slots per rank */
static struct { u8 used; u32 seq; } keys[MAXRANK][8];
static int myrank() { return cur ? cur->rank : (init_rank < 0 ? 0 : init_rank); }
int W(pthread_key_create)(pthread_key_t* k, void (*)(void*)) {
	int r = 0;
	on_rt([&] {
		if (cfgi("fault_key", 0)) { r = EAGAIN; return; }
		int rk = myrank(), i; for (i = 0; i < 8; i++) if (!keys[rk][i].used) break;
		if (i == 8) { r = EAGAIN; return; }
		keys[rk][i].used = 1; keys[rk][i].seq++; mem_access((uintptr_t)k, sizeof *k, true, 0); *k = i;
	});
	return r;
}
int W(pthread_key_delete)(pthread_key_t k) {
	int r = 0;
	on_rt([&] { if (k >= 8 || !keys[myrank()][k].used) { violate("lock misuse", "deleting an invalid thread-specific key"); } keys[myrank()][k].used = 0; });
	return r;
}
int W(pthread_setspecific)(pthread_key_t k, const void* v) {
	int r = 0;
	on_rt([&] { if (k >= 8 || !keys[myrank()][k].used || !cur) { r = EINVAL; return; } cur->keyval[k] = (u64)v; cur->keyseq[k] = keys[myrank()][k].seq; });
	return r;
}
void* W(pthread_getspecific)(pthread_key_t k) {
	void* r = 0;
	on_rt([&] {
		if (k >= 8 || !keys[myrank()][k].used) violate("lock misuse", "reading an invalid thread-specific key");
		if (cur && cur->keyseq[k] == keys[myrank()][k].seq) r = (void*)cur->keyval[k];
	});
	return r;
}
int mc_live_keys(int rank) { int n = 0; for (int i = 0; i < 8; i++) n += keys[rank][i].used; return n; }
int W(sched_getcpu)(void) { int r = 0; on_rt([&] { r = cfgi("fault_cpu", 0) ? -1 : (cur ? cur->cpu : 0); }); return r; }
int mc_numa_of(int cpu) { char b[32]; snprintf(b, sizeof b, "node%d", cpu); return (int)cfgi(b, cpu); }
void mc_numa_node(int cpu, int node) { on_rt([&] { char b[32]; snprintf(b, sizeof b, "node%d", cpu); cfg[b] = node; }); }
int numa_node_of_cpu(int cpu) { int r = 0; on_rt([&] { r = mc_numa_of(cpu); }); return r; }
int numa_available(void) { return 0; }
int numa_max_node(void) { return 3; }
int numa_num_configured_nodes(void) { return 4; }
void* numa_alloc_onnode(size_t n, int) { void* p = 0; on_rt([&] { p = target_alloc(n, K_NUMA); memset(p, 0, n); }); return p; }
void* numa_alloc_local(size_t n) { return numa_alloc_onnode(n, 0); }
void* numa_alloc(size_t n) { return numa_alloc_onnode(n, 0); }
void numa_free(void* p, size_t) { on_rt([&] { target_free(p, K_NUMA, "numa_free"); }); }

/* ------------------------------------------------------------ memory functions */
void* W(malloc)(size_t n) { if (!cur && init_rank < 0) return malloc(n); void* p = 0; on_rt([&] { p = target_alloc(n, K_MALLOC); }); return p; }
void* W(calloc)(size_t a, size_t b) { void* p = W(malloc)(a * b); memset(p, 0, a * b); return p; }
void W(free)(void* p) { if (!p) return; if (!in_arena(p)) { free(p); return; } on_rt([&] { target_free(p, K_MALLOC, "free"); }); }
void* W(realloc)(void* p, size_t n) {
	if (p && !in_arena(p)) return realloc(p, n);
	void* q = W(malloc)(n);
	if (p) { on_rt([&] { size_t o = target_size(p); memcpy(q, p, o < n ? o : n); target_free(p, K_MALLOC, "realloc"); }); }
	return q;
}
int W(posix_memalign)(void** r, size_t al, size_t n) { on_rt([&] { *r = target_alloc(n, K_MALLOC, al); }); return 0; }
void* W(aligned_alloc)(size_t al, size_t n) { void* r; W(posix_memalign)(&r, al, n); return r; }
void* W(memcpy)(void* d, const void* s, size_t n) {
	uintptr_t pc = RA;
	if (cur && !in_rt && n) on_rt([&] {
		mem_access((uintptr_t)s, n, false, pc); mem_access((uintptr_t)d, n, true, pc);
		if (d != s && (uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n) violate("memory error", "memcpy with overlapping areas");
	});
	return memcpy(d, s, n);
}
void* W(memmove)(void* d, const void* s, size_t n) {
	uintptr_t pc = RA;
	if (cur && !in_rt && n) on_rt([&] { mem_access((uintptr_t)s, n, false, pc); mem_access((uintptr_t)d, n, true, pc); });
	return memmove(d, s, n);
}
void* W(memset)(void* d, int c, size_t n) {
	uintptr_t pc = RA;
	if (cur && !in_rt && n) on_rt([&] { mem_access((uintptr_t)d, n, true, pc); });
	return memset(d, c, n);
}
int W(memcmp)(const void* a, const void* b, size_t n) {
	uintptr_t pc = RA;
	if (cur && !in_rt && n) on_rt([&] { mem_access((uintptr_t)a, n, false, pc); mem_access((uintptr_t)b, n, false, pc); });
	return memcmp(a, b, n);
}
int W(rand)(void) { return choose((int)cfgi("rand_n", 1), "rand") * (int)cfgi("rand_step", 1); }
void W(srand)(unsigned) {}
time_t W(time)(time_t* t) { if (t) *t = 1; return 1; }
void W(__assert_fail)(const char* e, const char* f, unsigned l, const char* fn) {
	in_rt = true; const char* s = strrchr(f, '/');
	violate("assertion", "%s failed at %s:%u in %s", e, s ? s + 1 : f, l, fn);
}
void W(__stack_chk_fail)(void) { in_rt = true; violate("memory error", "write beyond a local variable (stack protector)"); }
void W(abort)(void) { in_rt = true; violate("crash", "abort()"); }
void W(exit)(int) { in_rt = true; violate("crash", "exit()"); }
int W(__cxa_guard_acquire)(u64* g) {
	struct E { static bool en(Fiber* f) { return ((u8*)f->pa[0])[1] == 0; } };
	if (((u8*)g)[0]) { on_rt([&] { acquire(lkey(g)); }); return 0; }
	if (!cur) { return 1; }
	bool pt = false;
	on_rt([&] { discover(lkey(g)); pt = key_shared(lkey(g)); });
	if (pt || ((u8*)g)[1]) sched("static guard", E::en, (u64)g);
	int r = 0;
	on_rt([&] { touch(lkey(g), true); acquire(lkey(g)); if (!((u8*)g)[0]) { ((u8*)g)[1] = 1; r = 1; } });
	return r;
}
void W(__cxa_guard_release)(u64* g) { on_rt([&] { ((u8*)g)[0] = 1; ((u8*)g)[1] = 0; if (cur) { touch(lkey(g), true); release(lkey(g)); } }); }
void W(__cxa_guard_abort)(u64* g) { ((u8*)g)[1] = 0; }

/* undefined behaviour call-backs */
#define UB(n, t) void __ubsan_handle_##n() { in_rt = true; violate("undefined behaviour", t); } void __ubsan_handle_##n##_abort() { in_rt = true; violate("undefined behaviour", t); }
UB(out_of_bounds, "array index out of bounds")
UB(divrem_overflow, "division by zero or overflow")
UB(shift_out_of_bounds, "invalid shift")
UB(vla_bound_not_positive, "invalid array size")
UB(load_invalid_value, "invalid bool or enum value")
UB(nonnull_return_v1, "null returned")
UB(missing_return, "missing return")
UB(type_mismatch_v1, "null or misaligned pointer")
UB(pointer_overflow, "pointer overflow")
UB(add_overflow, "overflow")
UB(sub_overflow, "overflow")
UB(mul_overflow, "overflow")
UB(negate_overflow, "overflow")
UB(float_cast_overflow, "float conversion out of range")
UB(builtin_unreachable, "unreachable code")
UB(nonnull_arg, "null argument")
}
void std::thread::_M_start_thread(_State_ptr s, void (*)()) {
	struct R { static void* run(void* p) { _State* st = (_State*)p; st->_M_run(); delete st; return 0; } };
	_State* st = s.release();
	if (!cur) abort();
	int id = create(R::run, st);
	*(u64*)this = id + 1;
}
void std::thread::join() { u64 id = *(u64*)this; *(u64*)this = 0; join_id((int)id - 1, 0); }
void std::thread::detach() { *(u64*)this = 0; }
unsigned int std::thread::hardware_concurrency() noexcept { unsigned r = 4; on_rt([&] { r = (unsigned)cfgi("ncpus", 4); }); return r; }

/* ----------------------------------------------------------------- atomics */
/* Every atomic operation on a shared location is a scheduling point. */
static void at_point(const void* p, const char* n, bool write, size_t sz, uintptr_t pc) {
	if (!cur) return;
	bool pt = false;
	on_rt([&] { discover(lkey(p)); pt = key_shared(lkey(p)); });
	if (pt) sched(n, 0, (u64)p);
	on_rt([&] { touch(lkey(p), write); (void)sz; (void)pc; check_range(p, 1, false, "atomic operation"); });
}
enum { RLX, CONSUME, ACQ, REL, ACQREL, SEQ };
static void at_load(const void* p, int mo) { if (cur && mo != RLX && mo != REL) on_rt([&] { acquire(lkey(p)); }); }
static void at_store(const void* p, int mo) { if (cur) on_rt([&] { if (mo >= REL) release(lkey(p)); else obj_vc(lkey(p)).clear(); }); }
static void at_rmw(const void* p, int mo) { if (cur) on_rt([&] { if (mo != RLX && mo != REL) acquire(lkey(p)); if (mo >= REL) release_join(lkey(p)); }); }
#define AT(N, T) \
extern "C" T __tsan_atomic##N##_load(const volatile T* p, int mo) { at_point((void*)p, "atomic_load", false, sizeof(T), RA); at_load((void*)p, mo); return *p; } \
extern "C" void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_store", true, sizeof(T), RA); at_store((void*)p, mo); *p = v; } \
extern "C" T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_exchange", true, sizeof(T), RA); at_rmw((void*)p, mo); T o = *p; *p = v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_add", true, sizeof(T), RA); at_rmw((void*)p, mo); T o = *p; *p = o + v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_sub", true, sizeof(T), RA); at_rmw((void*)p, mo); T o = *p; *p = o - v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_and", true, sizeof(T), RA); at_rmw((void*)p, mo); T o = *p; *p = o & v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_or", true, sizeof(T), RA); at_rmw((void*)p, mo); T o = *p; *p = o | v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_xor", true, sizeof(T), RA); at_rmw((void*)p, mo); T o = *p; *p = o ^ v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { at_point((void*)p, "atomic_nand", true, sizeof(T), RA); at_rmw((void*)p, mo); T o = *p; *p = ~(o & v); return o; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { at_point((void*)p, "atomic_cas", true, sizeof(T), RA); if (*p == *c) { at_rmw((void*)p, mo); *p = v; return 1; } at_load((void*)p, fmo); *c = *p; return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo); } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { at_point((void*)p, "atomic_cas", true, sizeof(T), RA); T o = *p; if (o == c) { at_rmw((void*)p, mo); *p = v; } else at_load((void*)p, fmo); return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

static void preset() { memset(keys, 0, sizeof keys); }
static void phash(Hash& h) { h.mem(keys, sizeof keys); }
static struct Reg { Reg() { SimMod m = {preset, phash, 0}; register_sim(m); } } reg;
