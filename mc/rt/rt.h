/* Internal interface of the model checker's runtime.
 *
 * The code under test runs on fibers. Every operation on which threads or
 * processes can interact is announced to the scheduler before it is performed
 * (sched()); the explorer enumerates every order. All memory the code under
 * test can reach is at fixed addresses, so that the complete state (memory,
 * stacks, simulated libraries) can be hashed and equal states are merged. */
#ifndef MC_RT_H
#define MC_RT_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <deque>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum { MAXF = 15, INIT_ARENA = 15, MAXRANK = 4, NVC = 16 };

struct VC {
	u32 c[NVC];
	void clear() { memset(c, 0, sizeof c); }
	void join(const VC& o) { for (int i = 0; i < NVC; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Foot { // keys read and written by one transition (Bloom masks)
	u64 r[4], w[4];
	void clear() { memset(this, 0, sizeof *this); }
	bool conflicts(const Foot& o) const {
		for (int i = 0; i < 4; i++) if ((w[i] & (o.r[i] | o.w[i])) | (r[i] & o.w[i])) return true;
		return false;
	}
};

struct Fiber;
typedef bool (*EnFn)(Fiber*);

enum FState { F_NONE, F_READY, F_DONE };

struct Fiber {
	int id, rank;
	FState st;
	void* sp;
	char *stack_lo, *stack_hi;   // usable stack
	uintptr_t low;               // lowest stack address touched
	VC vc;
	void* (*start)(void*); void* arg; void* ret;
	// pending operation
	const char* pname; u64 pa[4]; EnFn en;
	int choose_n;                // > 0: waiting for a choice
	int choose_r;
	// simulated per-thread state (hashed)
	int cpu;
	int spur;                    // remaining spurious wake-ups
	u64 keyval[8]; u32 keyseq[8];
	u64 x[4];                    // scratch of the simulated libraries, hashed
	bool joined;
	u32 allocs;
	u64 bump;                    // arena used
	void* eh[2]; void* once[2];
	int err;
	u32 nobj;
};

struct Hash {
	u64 a, b;
	Hash() : a(0x9E3779B97F4A7C15ull), b(0xD1B54A32D192ED03ull) {}
	static u64 mum(u64 x, u64 y) { __uint128_t m = (__uint128_t)x * y; return (u64)m ^ (u64)(m >> 64); }
	void add(u64 x) { a = mum(a ^ x, 0xA0761D6478BD642Full) + b; b += 0x589965CC75374CC3ull; }
	void mem(const void* p, size_t n);
	u64 get() const { u64 r = mum(a ^ 0x1D8E4E27C47D124Full, b | 1); return r ? r : 1; }
};

struct SimMod { void (*reset)(); void (*hash)(Hash&); void (*end)(); };
void register_sim(const SimMod&);

extern Fiber* cur;               // running fiber (0: scheduler / initialisation)
extern bool in_rt;               // runtime code runs on behalf of cur
extern Fiber fibers[MAXF];
extern int nranks;
extern int init_rank;            // rank whose library is being loaded
extern "C" { extern void* sched_sp; void mc_on_rt(void (*)(void*), void*); }

template<class F> inline void on_rt(F f) {
	if (!cur || in_rt) { f(); return; }
	struct T { static void go(void* p) { in_rt = true; (*(F*)p)(); in_rt = false; } };
	mc_on_rt(&T::go, &f);
}

/* Scheduling point: announce an operation; returns when it may be performed. */
void sched(const char* name, EnFn en = 0, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0);
int choose(int n, const char* what);       // internal non-determinism
Fiber* new_fiber(int rank, void* (*fn)(void*), void* arg, Fiber* parent);

/* Object identity for independence and sharing */
bool key_shared(u64 key);                  // is it a scheduling point to touch this?
void touch(u64 key, bool write);           // footprint + sharing discovery
void foot_only(u64 key, bool write);
void force_share(u64 key);
void discover(u64 key);                    // sharing discovery only
VC& obj_vc(u64 key);
void acquire(u64 key);                     // cur joins obj
void release(u64 key);                     // obj := cur
void release_join(u64 key);
void tick();

[[noreturn]] void violate(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void abandon();               // end this execution silently
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

/* Memory */
enum { K_NEW = 1, K_NEWA, K_MALLOC, K_MPI, K_NUMA };
void* target_alloc(size_t n, int kind, size_t align = 16);
void target_free(void* p, int kind, const char* what);
size_t target_size(void* p);
bool in_arena(const void* p);
void mem_access(uintptr_t a, size_t n, bool write, uintptr_t pc);
void check_range(const void* p, size_t n, bool write, const char* what); // also flags wild pointers
const char* kindname(int k);
u64 live_blocks(int rank, int kindmask, std::string* desc);
void pseudo_access(u64 key, bool write, const char* what); // race detection on a named resource

/* configuration of the scenario (from the command line and the harness) */
extern std::map<std::string, long> cfg;
long cfgi(const char* n, long dflt);
extern bool replaying_verbose;
extern int warnings;
static inline u64 mkkey(u64 kind, u64 a, u64 b = 0, u64 c = 0, u64 d = 0) {
	u64 h = kind * 0x9E3779B97F4A7C15ull;
	h = Hash::mum(h ^ a, 0xA0761D6478BD642Full); h = Hash::mum(h ^ (b + 77), 0xE7037ED1A0B428DBull);
	h = Hash::mum(h ^ (c + 177), 0x8EBC6AF09C88C6E3ull); h = Hash::mum(h ^ (d + 277), 0x589965CC75374CC3ull);
	return h | (1ull << 63);
}
#endif
