/* Model checker core: fibers, memory, race detection, explicit-state exploration
 * of the real code. See rt.h and DESIGN.md. */
#include "rt.h"
#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <mutex>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <new>

/* ------------------------------------------------------------------ layout */
static const uintptr_t BASE = 0x100000000000ull;
static const u64 SLOT = 128ull << 20, ARENA = 64ull << 20, STACK = 256u << 10;
static const u64 REGION = 16 * SLOT;
static const u64 GSEG = 16ull << 20;
static const u64 SHADOW = REGION + MAXRANK * GSEG;
static u32 *shW, *shR, *pcW, *pcR;
static u8* shA; // 0 never allocated / redzone, 1 live, 2 freed
struct Seg { uintptr_t lo, hi; std::vector<char> snap; uintptr_t base; std::vector<std::pair<uintptr_t, uintptr_t> > parts; };
static Seg segs[MAXRANK];
static std::vector<char> init_snap; static u64 init_bump;
static std::vector<u8> init_snapA;

Fiber fibers[MAXF];
Fiber* cur;
bool in_rt;
static bool det, user_choice; // deterministic scheduling (round robin) of a phase that is explored elsewhere
static int gates[64];
static std::map<int, std::string> logtext; // message being written, per thread
int nranks = 1, init_rank = -1;
void* sched_sp;
std::map<std::string, long> cfg;
bool replaying_verbose;
int warnings;
static std::vector<SimMod>& sims() { static std::vector<SimMod> v; return v; }
void register_sim(const SimMod& m) { sims().push_back(m); }
static u64 init_arena_bump;
static u32 child_count[MAXRANK];
static int expect_error;
static std::map<std::string, long> args; // scenario parameters
long cfgi(const char* n, long d) { auto it = cfg.find(n); return it == cfg.end() ? d : it->second; }

/* ---------------------------------------------------------------- switching */
extern "C" void mc_switch(void** save, void* load);
extern "C" void mc_fiber_entry();
asm(R"(
# no value of the runtime may leak into the stack of the code under test (spilled registers)
.macro MC_SCRUB
	xorl %eax,%eax
	xorl %ecx,%ecx
	xorl %edx,%edx
	xorl %esi,%esi
	xorl %edi,%edi
	xorl %r8d,%r8d
	xorl %r9d,%r9d
	xorl %r10d,%r10d
	xorl %r11d,%r11d
.endm
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	MC_SCRUB
	ret
.globl mc_on_rt
.type mc_on_rt,@function
mc_on_rt:
	movq %rdi,%rax
	movq %rsi,%rdi
	pushq %rbp
	movq %rsp,%rbp
	movq sched_sp(%rip),%rsp
	subq $512,%rsp
	andq $-16,%rsp
	call *%rax
	movq %rbp,%rsp
	popq %rbp
	MC_SCRUB
	ret
.globl mc_fiber_entry
mc_fiber_entry:
	xorl %ebp,%ebp
	andq $-16,%rsp
	call mc_fiber_main
	ud2
)");

/* -------------------------------------------------------------- exploration */
struct Sleep { int f; Foot foot; };
struct Item {
	std::vector<u16> path; std::vector<Sleep> sleep;
	u64 fp = 0; u32 mask = 0; int n = 0, next = 0; bool root = false;
};
static const int SLOTSZ = 32768, NSLOT = 1024;
struct Shared {
	pthread_mutex_t mu;
	std::atomic<int> stop, idle, grown, nq;
	std::atomic<u64> execs, complete, pruned, sleepblk, trans, states, truncated, discarded, maxdepth, replays, terminal, nodes, ignored, races_supp;
	std::atomic<u64> nshared, lastgrow; u64 nactive; u64 shared[4096]; // the first nactive keys are in force in this round
	int viol; char vkind[64]; char vtext[8192]; u32 vlen; u16 vpath[60000];
	u32 noutcome; char outcome[8192][96]; u64 outcount[8192];
	u32 nign; char ign[64][256]; u64 igncount[64];
	char sample[4][3000]; u32 nsample;
	char slots[NSLOT][SLOTSZ];
};
static Shared* S;
static std::atomic<u64>* vkeys; static std::atomic<u16>* vmask; static u64 vcap;
static std::vector<std::string> ignore_pats;

struct Run {
	Item item; size_t pos; bool past; std::vector<u16> path; std::vector<Sleep> sleep;
	Foot foot; u64 from; u64 steps; bool fair; int last; bool chose; Item deferred; bool hasdef; int defalt;
	bool violated; bool ended; bool prune; int rr; int preempt;
};
static Run R;
static std::deque<Item> work;
static std::vector<std::pair<u64, u64> > edges; static std::vector<u64> good;
static bool opt_replay, opt_bfs; static long opt_maxsteps = 4000, opt_bound = -1; static bool opt_por = true, opt_edges = true, opt_visited = true;
static jmp_buf sched_jmp; static sigjmp_buf sig_jmp;
static std::set<u64> localshared; static u64 nlocal;
static FILE* vout;
static u64 exec_serial;

void note(const char* fmt, ...) {
	if (!replaying_verbose) return;
	va_list ap; va_start(ap, fmt);
	char b[1024]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (cur) fprintf(vout, "  [t%d r%d] %s\n", cur->id, cur->rank, b); else fprintf(vout, "  %s\n", b);
}

static std::string demangle(const char* n) {
	int st; char* d = abi::__cxa_demangle(n, 0, 0, &st);
	std::string r = d ? d : n; free(d); return r;
}
static std::string so_path;
struct PcInfo { std::string fn; int rank; uintptr_t off; };
static PcInfo pcinfo(uintptr_t pc) {
	PcInfo r; r.rank = -1; r.off = 0;
	Dl_info i;
	if (pc && dladdr((void*)(pc - 1), &i)) {
		if (i.dli_sname) r.fn = demangle(i.dli_sname); else r.fn = "?";
		for (int k = 0; k < nranks; k++) if ((uintptr_t)i.dli_fbase == segs[k].base) { r.rank = k; r.off = pc - 1 - segs[k].base; }
	} else r.fn = "?";
	return r;
}
static std::string pcname(uintptr_t pc) {
	PcInfo i = pcinfo(pc);
	std::string s = i.fn;
	if (i.rank >= 0) { char b[64]; snprintf(b, sizeof b, " @%lx", (unsigned long)i.off); s += b; }
	return s;
}
static std::string pcname_short(uintptr_t pc) { // without template arguments
	std::string s = pcinfo(pc).fn, o; int d = 0;
	for (char c : s) { if (c == '<') d++; else if (c == '>') d--; else if (!d) o += c; }
	size_t p = o.find('('); if (p != std::string::npos) o.resize(p);
	return o;
}

static void record_violation(const char* kind, const std::string& text) {
	for (auto& p : ignore_pats) if ((std::string(kind) + ": " + text).find(p) != std::string::npos) {
		S->ignored++;
		pthread_mutex_lock(&S->mu);
		u32 i; for (i = 0; i < S->nign; i++) if (p == S->ign[i]) break;
		if (i == S->nign && i < 64) { strncpy(S->ign[i], p.c_str(), 255); S->nign++; }
		if (i < 64) S->igncount[i]++;
		pthread_mutex_unlock(&S->mu);
		return;
	}
	pthread_mutex_lock(&S->mu);
	if (!S->viol) {
		S->viol = 1;
		snprintf(S->vkind, sizeof S->vkind, "%s", kind);
		snprintf(S->vtext, sizeof S->vtext, "%s", text.c_str());
		S->vlen = std::min<size_t>(R.path.size(), 60000);
		for (u32 i = 0; i < S->vlen; i++) S->vpath[i] = R.path[i];
		S->stop = 1;
	}
	pthread_mutex_unlock(&S->mu);
}
static std::string where() {
	char b[96];
	if (cur) snprintf(b, sizeof b, " [thread %d, rank %d, %s]", cur->id, cur->rank, cur->pname ? cur->pname : "running"); else b[0] = 0;
	return b;
}
void violate(const char* kind, const char* fmt, ...) {
	in_rt = true;
	va_list ap; va_start(ap, fmt);
	char b[4096]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	std::string t = std::string(b) + where();
	if (replaying_verbose) fprintf(vout, "  VIOLATION %s: %s\n", kind, t.c_str());
	record_violation(kind, t);
	R.violated = true;
	longjmp(sched_jmp, 1);
}
void abandon() { in_rt = true; R.prune = true; longjmp(sched_jmp, 2); }

void Hash::mem(const void* p, size_t n) {
	const u64* q = (const u64*)p; size_t k = n / 16;
	u64 s0 = a, s1 = b ^ n;
	for (size_t i = 0; i + 1 < k; i += 2) {
		s0 = mum(q[2*i] ^ 0xA0761D6478BD642Full, q[2*i+1] ^ s0);
		s1 = mum(q[2*i+2] ^ 0xE7037ED1A0B428DBull, q[2*i+3] ^ s1);
	}
	if (k & 1) s0 = mum(q[2*k-2] ^ 0xA0761D6478BD642Full, q[2*k-1] ^ s0);
	size_t done = k * 16;
	u64 t0 = 0, t1 = 0; size_t rem = n - done;
	if (rem) { char tmp[16] = {0}; memcpy(tmp, (const char*)p + done, rem); memcpy(&t0, tmp, 8); memcpy(&t1, tmp + 8, 8); s0 = mum(t0 ^ 0x8EBC6AF09C88C6E3ull, t1 ^ s0); }
	a = mum(s0 ^ 0x589965CC75374CC3ull, s1 ^ a); b = s1 + 0x9E3779B97F4A7C15ull * (b | 1);
}

/* ------------------------------------------------------------------- keys */
struct KeyRec { u64 key; u32 gen; u16 touched; VC vc; };
static std::vector<KeyRec> keytab; static u32 keygen; static u64 keymask_; static u64 keyused;
static KeyRec& keyrec(u64 key) {
	u64 i = Hash::mum(key, 0x9E3779B97F4A7C15ull) & keymask_;
	while (true) {
		KeyRec& k = keytab[i];
		if (k.gen != keygen) { k.key = key; k.gen = keygen; k.touched = 0; k.vc.clear(); if (++keyused * 2 > keytab.size()) { fprintf(stderr, "key table full\n"); _exit(3); } return k; }
		if (k.key == key) return k;
		i = (i + 1) & keymask_;
	}
}
VC& obj_vc(u64 key) { return keyrec(key).vc; }
bool key_shared(u64 key) {
	if (!cur) return false;
	if (nlocal != S->nactive) { while (nlocal < S->nactive) localshared.insert(S->shared[nlocal++]); }
	return localshared.count(key);
}
void foot_only(u64 key, bool write) {
	u64 h = Hash::mum(key, 0xD1B54A32D192ED03ull);
	u64* m = write ? R.foot.w : R.foot.r;
	m[(h >> 6) & 3] |= 1ull << (h & 63); // collisions only cost reduction
}
void force_share(u64 key) {
	if (opt_replay || key_shared(key)) return;
	pthread_mutex_lock(&S->mu);
	bool have = false;
	for (u64 i = 0; i < S->nshared; i++) if (S->shared[i] == key) have = true;
	if (!have && S->nshared < 4096) { S->shared[S->nshared] = key; S->nshared++; S->lastgrow = S->execs + 1; }
	pthread_mutex_unlock(&S->mu);
}
void touch(u64 key, bool write) { if (!cur) return; foot_only(key, write); discover(key); }
void discover(u64 key) {
	if (!cur) return;
	KeyRec& k = keyrec(key);
	u16 bit = 1u << cur->id;
	if (!(k.touched & bit)) {
		k.touched |= bit;
		if (k.touched & (k.touched - 1)) force_share(key);
	}
}
void tick() { if (cur) cur->vc.c[cur->id]++; }
void acquire(u64 key) { if (cur) cur->vc.join(obj_vc(key)); }
void release(u64 key) { if (cur) { obj_vc(key) = cur->vc; tick(); } }
void release_join(u64 key) { if (cur) { obj_vc(key).join(cur->vc); tick(); } }

/* ------------------------------------------------------------------ memory */
static inline bool shadow_off(uintptr_t a, u64& off) {
	if (a - BASE < REGION) { off = a - BASE; return true; }
	for (int r = 0; r < nranks; r++) if (a - segs[r].lo < segs[r].hi - segs[r].lo) { off = REGION + r * GSEG + (a - segs[r].lo); return true; }
	return false;
}
bool in_arena(const void* p) { uintptr_t a = (uintptr_t)p - BASE; return a < REGION && a % SLOT < ARENA; }
static std::vector<VC> rvc; // read vector clocks of shared-read bytes
static std::vector<u64*> hidden; // words that do not count as state (performance counters)
static int opt_hide;
static std::unordered_map<u64, bool> counter_pc;
static bool is_counter_pc(uintptr_t pc) {
	auto it = counter_pc.find(pc);
	if (it != counter_pc.end()) return it->second;
	std::string s = pcinfo(pc).fn;
	bool r = s.find("perf::Counter::") == 0;
	counter_pc[pc] = r; return r;
}
static bool suppressed(uintptr_t a, uintptr_t b) {
	if (cfgi("counter_races", 0)) return false;
	if (is_counter_pc(a) && is_counter_pc(b)) { S->races_supp++; return true; }
	return false;
}
static uintptr_t full_pc(u32 c) { return c ? (segs[(c >> 28) & 3].base + (c & 0xFFFFFFF)) : 0; }
static u32 comp_pc(uintptr_t pc) { // rank in the upper bits, offset below
	static uintptr_t lastlo = 1, lasthi = 0; static int lastr;
	if (pc - lastlo < lasthi - lastlo && lasthi) return (1u << 31) | (lastr << 28) | (u32)(pc - segs[lastr].base);
	for (int r = 0; r < nranks; r++) if (pc - segs[r].base < (64u << 20)) { lastr = r; lastlo = segs[r].base; lasthi = segs[r].hi; return (1u << 31) | (r << 28) | (u32)(pc - segs[r].base); }
	return 0;
}
static void race(uintptr_t a, bool write, uintptr_t pc, bool owrite, u32 of, u64 off) {
	uintptr_t opc = full_pc((owrite ? pcW : pcR)[off >> 3]);
	if (suppressed(pc, opc)) return;
	const char* region = a - BASE >= REGION ? "global" : ((a - BASE) % SLOT < ARENA ? "heap" : "stack");
	violate("data race", "%s in %s [%s] unordered with %s by thread %u in %s [%s] (%s memory)", write ? "write" : "read", pcname_short(pc).c_str(), pcname(pc).c_str(),
		owrite ? "write" : "read", of, pcname_short(opc).c_str(), pcname(opc).c_str(), region);
}
static void access_slow(u64 off, uintptr_t a, size_t n, bool write, uintptr_t pc) {
	Fiber* f = cur; u32 me = f->id; u32 ep = (me << 27) | f->vc.c[me];
	bool arena = off < REGION && off % SLOT < ARENA;
	for (size_t i = 0; i < n; i++) {
		u64 o = off + i;
		if (arena && shA[o] != 1)
			violate("memory error", "%s of %zu byte(s) %s memory in %s [%s]", write ? "write" : "read", n, shA[o] == 2 ? "in freed" : "outside allocated", pcname_short(pc).c_str(), pcname(pc).c_str());
		u32 w = shW[o];
		if (w && (w >> 27) != me && (w & 0x7FFFFFF) > f->vc.c[w >> 27]) { race(a + i, write, pc, true, w >> 27, o); }
		u32 r = shR[o];
		if (write) {
			if (r) {
				if (r >> 31) {
					VC& v = rvc[r & 0x7FFFFFFF];
					for (u32 k = 0; k < MAXF; k++) if (k != me && v.c[k] > f->vc.c[k]) { race(a + i, write, pc, false, k, o); }
				} else if ((r >> 27) != me && (r & 0x7FFFFFF) > f->vc.c[r >> 27]) race(a + i, write, pc, false, r >> 27, o);
			}
			shW[o] = ep; shR[o] = 0;
		} else if (r != ep) {
			if (!r) shR[o] = ep;
			else if (r >> 31) rvc[r & 0x7FFFFFFF].c[me] = f->vc.c[me];
			else if ((r >> 27) == me || (r & 0x7FFFFFF) <= f->vc.c[r >> 27]) shR[o] = ep;
			else {
				VC v; v.clear(); v.c[r >> 27] = r & 0x7FFFFFF; v.c[me] = f->vc.c[me];
				rvc.push_back(v); shR[o] = (1u << 31) | (u32)(rvc.size() - 1);
			}
		}
	}
	u32 c = comp_pc(pc);
	for (u64 g = off >> 3; g <= (off + n - 1) >> 3; g++) (write ? pcW : pcR)[g] = c;
}
static u64* watch_at = getenv("MC_WATCH") ? (u64*)strtoull(getenv("MC_WATCH"), 0, 16) : 0; // debugging: report changes of this word
static u64 watch_old;
static void watch_check(const char* where, uintptr_t pc);
void mem_access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
	u64 off;
	if (watch_at) watch_check("access", pc);
	if (!cur || !n || !shadow_off(a, off)) return;
	if (a - BASE < REGION && (a - BASE) % SLOT >= ARENA) {
		Fiber* o = &fibers[(a - BASE) / SLOT];
		if (a < o->low) o->low = a;
	}
	access_slow(off, a, n, write, pc);
}
void check_range(const void* p, size_t n, bool write, const char* what) {
	if (!n) return;
	u64 off; uintptr_t a = (uintptr_t)p;
	if (a < 65536) violate("memory error", "%s: invalid pointer %p", what, p);
	if (!shadow_off(a, off)) return;
	mem_access(a, n, write, 0);
}
// called by the instrumentation (see tsan stubs), already on the runtime stack
extern "C" void mc_access(uintptr_t a, u64 info, uintptr_t pc) {
	if (!cur || in_rt) return;
	in_rt = true;
	if (opt_hide && (info & 1) && is_counter_pc(pc) && (info >> 1) == 8 && !(a & 7) && (a - BASE) % SLOT < ARENA) {
		if (std::find(hidden.begin(), hidden.end(), (u64*)a) == hidden.end()) hidden.push_back((u64*)a);
	}
	mem_access(a, info >> 1, info & 1, pc);
	in_rt = false;
}

struct Hdr { u64 magic; u64 size; u32 kind; u32 owner; u64 total; };
static const u64 HMAGIC = 0xA110C8EDBEEFull, HFREE = 0xF4EEDBEEFDEAull;
static std::map<u64, std::vector<u64> > freelist[MAXF];
void* target_alloc(size_t n, int kind, size_t align) {
	int ar = cur ? cur->id : (int)INIT_ARENA;
	u64& bump = cur ? cur->bump : init_arena_bump;
	u64 total = 32 + ((n + 15) & ~15ull) + 16;
	char* b = 0;
	if (align < 16) align = 16;
	if (cur && cfgi("reuse", 0) && align == 16) {
		auto it = freelist[ar].find(total);
		if (it != freelist[ar].end() && !it->second.empty()) { b = (char*)it->second.back(); it->second.pop_back(); }
	}
	if (!b) {
		char* base = (char*)(BASE + ar * SLOT);
		u64 p = (bump + 32 + align - 1) & ~(u64)(align - 1);
		u64 start = p - 32;
		if (p + total > ARENA) violate("memory error", "out of memory allocating %zu bytes", n);
		if (start > bump) memset(base + bump, 0xFB, start - bump);
		b = base + start; bump = start + total;
	}
	Hdr* h = (Hdr*)b; h->magic = HMAGIC; h->size = n; h->kind = kind; h->owner = cur ? cur->rank : (init_rank < 0 ? 0 : init_rank); h->total = total;
	char* u = b + 32;
	memset(u, 0xCD, n); memset(u + n, 0xFB, total - 32 - n);
	u64 off = (uintptr_t)u - BASE;
	memset(shA + off - 32, 0, total); memset(shA + off, 1, n);
	memset(shW + off, 0, n * 4); memset(shR + off, 0, n * 4);
	return u;
}
const char* kindname(int k) { static const char* n[] = {"?", "new", "new[]", "malloc", "MPI_Alloc_mem", "numa_alloc"}; return n[k]; }
void target_free(void* p, int kind, const char* what) {
	if (!p) return;
	if (!in_arena(p)) { violate("memory error", "%s of a pointer %p that was not allocated", what, p); }
	u64 off = (uintptr_t)p - BASE; Hdr* h = (Hdr*)((char*)p - 32);
	if (off % SLOT < 32 || (h->magic != HMAGIC && h->magic != HFREE)) violate("memory error", "%s of a pointer that does not start a block", what);
	if (h->magic == HFREE) violate("memory error", "%s of memory that is already freed (double free)", what);
	if ((int)h->kind != kind) violate("memory error", "%s of memory allocated with %s", what, kindname(h->kind));
	if (cur) { mem_access((uintptr_t)p, h->size, true, 0); }
	if (!hidden.empty()) hidden.erase(std::remove_if(hidden.begin(), hidden.end(), [&](u64* w) { return (char*)w >= (char*)p && (char*)w < (char*)p + h->size; }), hidden.end());
	h->magic = HFREE;
	memset(shA + off, 2, h->size); memset(p, 0xDD, h->size);
	if (cur && cfgi("reuse", 0)) { int ar = ((uintptr_t)p - BASE) / SLOT; if (ar < MAXF) freelist[ar][h->total].push_back((u64)(uintptr_t)h); }
}
size_t target_size(void* p) { return ((Hdr*)((char*)p - 32))->size; }
template<class F> static void each_block(F f) {
	for (int ar = 0; ar < 16; ar++) {
		u64 bump = ar == INIT_ARENA ? init_arena_bump : (ar < MAXF ? fibers[ar].bump : 0);
		char* base = (char*)(BASE + ar * SLOT); u64 p = 0;
		while (p + 32 <= bump) {
			Hdr* h = (Hdr*)(base + p);
			if (h->magic != HMAGIC && h->magic != HFREE) { p += 16; continue; }
			f(h, ar); p += h->total;
		}
	}
}
u64 live_blocks(int rank, int kindmask, std::string* desc) {
	u64 n = 0;
	each_block([&](Hdr* h, int ar) {
		if (h->magic == HMAGIC && ar != INIT_ARENA && (int)h->owner == rank && (kindmask >> h->kind & 1)) {
			n++;
			if (desc && desc->size() < 300) { char b[64]; snprintf(b, sizeof b, " %lu bytes (%s)", (unsigned long)h->size, kindname(h->kind)); *desc += b; }
		}
	});
	return n;
}
void pseudo_access(u64 key, bool write, const char* what) {
	if (!cur) return;
	// the object's clock holds, per thread, the last access
	VC& v = keyrec(key).vc;
	KeyRec* kr = &keyrec(key ^ 0x5555555555ull);
	for (int i = 0; i < MAXF; i++) if (i != cur->id) {
		if (v.c[i] > cur->vc.c[i]) violate("data race", "%s overlaps with an unordered %s by thread %d", what, "access", i);
		if (write && kr->vc.c[i] > cur->vc.c[i]) violate("data race", "%s overlaps with an unordered access by thread %d", what, i);
	}
	(write ? keyrec(key).vc : kr->vc).c[cur->id] = cur->vc.c[cur->id];
}

/* operator new/delete: the code under test gets arena memory */
static inline bool target_ctx() { return (cur && !in_rt) || init_rank >= 0; }
static void* new_impl(size_t n, int kind, size_t al = 16) {
	if (!target_ctx()) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
	void* p = 0; on_rt([&] { p = target_alloc(n, kind, al); }); return p;
}
static void del_impl(void* p, int kind) {
	if (!p) return;
	if (!in_arena(p)) { if (target_ctx() && false) {} free(p); return; }
	if (!target_ctx()) return;
	on_rt([&] { target_free(p, kind, kind == K_NEW ? "delete" : "delete[]"); });
}
void* operator new(size_t n) { return new_impl(n, K_NEW); }
void* operator new[](size_t n) { return new_impl(n, K_NEWA); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, K_NEW); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, K_NEWA); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, K_NEW, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, K_NEWA, (size_t)a); }
void operator delete(void* p) noexcept { del_impl(p, K_NEW); }
void operator delete[](void* p) noexcept { del_impl(p, K_NEWA); }
void operator delete(void* p, size_t) noexcept { del_impl(p, K_NEW); }
void operator delete[](void* p, size_t) noexcept { del_impl(p, K_NEWA); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p, K_NEW); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p, K_NEWA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p, K_NEW); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p, K_NEWA); }

/* ------------------------------------------------------------------ fibers */
extern "C" void* __cxa_get_globals();
extern "C" void mc_fiber_main() {
	Fiber* f = cur;
	f->ret = f->start(f->arg);
	in_rt = true;
	f->st = F_DONE; f->pname = "done";
	release(mkkey(1, f->id));
	touch(mkkey(1, f->id), true);
	in_rt = false;
	mc_switch(&f->sp, sched_sp);
	__builtin_trap();
}
Fiber* new_fiber(int rank, void* (*fn)(void*), void* arg, Fiber* parent) {
	int id;
	if (!parent) id = rank;
	else {
		int per = (MAXF - nranks) / nranks;
		if ((int)child_count[rank] >= per) violate("limit", "too many threads in rank %d", rank);
		id = nranks + rank * per + child_count[rank]++;
	}
	Fiber* f = &fibers[id];
	f->id = id; f->rank = rank; f->st = F_READY; f->start = fn; f->arg = arg; f->pname = "start";
	f->en = 0; f->choose_n = 0; f->joined = false; f->cpu = cfgi("default_cpu", 0);
	f->spur = cfgi("spurious", 0);
	f->vc.clear(); if (parent) { f->vc = parent->vc; tick(); }
	f->vc.c[id] = 1;
	void** sp = (void**)(f->stack_hi - 128);
	*--sp = 0; *--sp = (void*)mc_fiber_entry;
	for (int i = 0; i < 6; i++) *--sp = 0;
	f->sp = sp; f->low = (uintptr_t)sp;
	f->eh[0] = f->eh[1] = 0; f->err = 0;
	return f;
}
static void yield_to_sched() {
	Fiber* f = cur;
	mc_switch(&f->sp, sched_sp);
}
void sched(const char* name, EnFn en, u64 a, u64 b, u64 c, u64 d) {
	if (!cur) return;
	Fiber* f = cur;
	f->pname = name; f->en = en; f->pa[0] = a; f->pa[1] = b; f->pa[2] = c; f->pa[3] = d; f->choose_n = 0;
	bool rt = in_rt; if (rt) { fprintf(stderr, "sched in rt: %s\n", name); _exit(3); }
	yield_to_sched();
	f->pname = 0; f->en = 0;
}
int choose(int n, const char* what) {
	if (!cur || n <= 1) return 0;
	Fiber* f = cur;
	if (in_rt) { fprintf(stderr, "choose in rt: %s\n", what); _exit(3); }
	const char* on = f->pname; 
	f->pname = what; f->choose_n = n;
	yield_to_sched();
	f->choose_n = 0; f->pname = on;
	return f->choose_r;
}

/* ----------------------------------------------------------------- hashing */
static long ghost[256];
static bool hdbg = getenv("MC_HDBG"); static std::vector<u64> hcomp; static std::unordered_map<u64, std::vector<u64> > hall; // debugging: partial hashes of every state
static u64 state_hash() {
	Hash h; hcomp.clear();
	auto part = [&] { if (hdbg) hcomp.push_back(h.get()); };
	std::vector<u64> keep; for (u64* w : hidden) { keep.push_back(*w); *w = 0; }
	for (int i = 0; i < MAXF; i++) {
		Fiber& f = fibers[i];
		h.add(f.st); h.add(f.bump);
		if (f.bump) h.mem((void*)(BASE + i * SLOT), f.bump);
		if (f.st == F_READY) {
			h.mem(f.sp, f.stack_hi - (char*)f.sp);
			h.add((u64)(uintptr_t)f.sp); h.add((u64)(uintptr_t)f.en); h.add((u64)f.choose_n);
			h.mem(f.pa, sizeof f.pa); h.add(f.cpu); h.add(f.spur); h.mem(f.keyval, sizeof f.keyval); h.mem(f.keyseq, sizeof f.keyseq); h.mem(f.x, sizeof f.x);
		} else h.add((u64)(uintptr_t)f.ret);
		h.add(f.joined);
		for (auto& p : freelist[i]) if (!p.second.empty()) { h.add(p.first); h.mem(p.second.data(), p.second.size() * 8); }
		part();
	}
	if (init_arena_bump) h.mem((void*)(BASE + INIT_ARENA * SLOT), init_arena_bump);
	for (int r = 0; r < nranks; r++) for (auto& p : segs[r].parts) h.mem((void*)p.first, p.second - p.first);
	part(); h.mem(ghost, sizeof ghost); h.add(warnings); h.add(expect_error);
	h.mem(child_count, sizeof child_count); h.mem(gates, sizeof gates); h.add(det ? 1 + R.rr : 0);
	part(); for (auto& m : sims()) if (m.hash) { m.hash(h); part(); }
	if (opt_bound >= 0) h.add(R.preempt * 31 + R.last);
	for (size_t i = 0; i < keep.size(); i++) *hidden[i] = keep[i];
	return h.get();
}

/* ------------------------------------------------------------ decision making */
static void push_item(Item&& it) { work.push_back(std::move(it)); }
static void flush_deferred(bool done) {
	if (!R.hasdef) return;
	R.hasdef = false;
	if (done && !R.chose && opt_por) { Sleep s; s.f = R.defalt; s.foot = R.foot; R.deferred.sleep.push_back(s); }
	push_item(std::move(R.deferred));
}
static u32 sleepmask() { u32 m = 0; for (auto& s : R.sleep) m |= 1u << s.f; return m; }
enum { END_PRUNED = -2, END_SLEEP = -3 };
static u32 bounded(u32 mask) { // preemption bounding
	if (opt_bound < 0 || R.last < 0 || !(mask >> R.last & 1)) return mask;
	return R.preempt >= opt_bound ? 1u << R.last : mask;
}
static int decide(bool isc, int n, u32 mask) {
	int ncand = isc ? n : __builtin_popcount(mask);
	if (ncand == 1) return isc ? 0 : __builtin_ctz(mask);
	if (det && !(isc && user_choice)) {
		if (isc) return 0;
		do R.rr = (R.rr + 1) % MAXF; while (!(mask >> R.rr & 1)); return R.rr;
	}
	S->nodes++;
	if (R.pos < R.item.path.size()) {
		int v = R.item.path[R.pos++]; R.path.push_back(v);
		if (isc ? v >= n : !(mask >> v & 1)) { fprintf(stderr, "replay diverged at %zu (choice %d, n=%d mask=%x)\n", R.pos, v, n, mask); record_violation("internal", "replay diverged"); R.violated = true; return END_PRUNED; }
		return v;
	}
	if (R.fair) {
		int v;
		if (isc) v = 0; else { do R.rr = (R.rr + 1) % MAXF; while (!(mask >> R.rr & 1)); v = R.rr; }
		R.path.push_back(v); return v;
	}
	if (opt_replay) {
		int v = isc ? 0 : (R.last >= 0 && (mask >> R.last & 1) ? R.last : __builtin_ctz(mask));
		R.path.push_back(v); return v;
	}
	u64 fp; u32 todo = 0; int first = 0, cn = 0;
	if (!R.past && !R.item.root) { // the node this item belongs to
		R.past = true; R.sleep = R.item.sleep; fp = R.item.fp;
		static bool verify = cfgi("verify_replay", 1);
		if (verify && opt_visited) {
			u64 now = state_hash(); if (isc) { Hash h; h.add(now); h.mem(&R.foot, sizeof R.foot); now = h.get(); }
			if (now != fp && hdbg) { auto& o = hall[fp]; for (size_t i = 0; i < o.size() && i < hcomp.size(); i++) if (o[i] != hcomp[i]) { fprintf(stderr, "states differ from part %zu\n", i); break; } if (o == hcomp) fprintf(stderr, "only the footprint differs\n"); if (o.empty()) fprintf(stderr, "unknown\n"); }
			if (now != fp) { record_violation("internal", "replay reached a different state"); R.violated = true; return END_PRUNED; }
		}
		if (isc) { first = R.item.next; cn = R.item.n; } else todo = R.item.mask;
	} else {
		R.past = true;
		u32 z = sleepmask();
		if (!isc) { mask = bounded(mask); if (!(mask & ~z)) { S->sleepblk++; good.push_back(R.from); return END_SLEEP; } }
		fp = state_hash(); if (isc) { Hash h; h.add(fp); h.mem(&R.foot, sizeof R.foot); fp = h.get(); }
		if (hdbg) hall[fp] = hcomp;
		if (opt_edges) edges.emplace_back(R.from, fp);
		if (z) good.push_back(fp);
		u32 expl = isc ? 1 : mask & ~z;
		if (opt_visited) {
			u64 i = fp & (vcap - 1); u64 probes = 0;
			while (true) {
				u64 k = vkeys[i].load(std::memory_order_relaxed);
				if (k == fp) break;
				if (!k) { u64 e = 0; if (vkeys[i].compare_exchange_strong(e, fp)) { S->states++; break; } if (e == fp) break; }
				i = (i + 1) & (vcap - 1);
				if (++probes > 4096) { S->stop = 4; return END_PRUNED; }
			}
			u16 z0 = vmask[i].fetch_and(z);
			if (isc) expl = (z0 & ~z & 0xFFFF) ? 1 : 0;
			else expl = mask & z0 & ~z;
		}
		if (!expl) { S->pruned++; return END_PRUNED; }
		if (isc) { first = 0; cn = n; } else todo = expl;
		if (opt_bfs) { // breadth first: continue from here in executions of their own
			Item it; it.path = R.path; it.sleep = R.sleep; it.fp = fp; it.mask = todo; it.n = isc ? n : 0; it.next = 0;
			push_item(std::move(it)); return END_PRUNED;
		}
	}
	R.from = fp;
	int v;
	if (isc) {
		v = first;
		if (first + 1 < cn) { Item it; it.path = R.path; it.sleep = R.sleep; it.fp = fp; it.n = cn; it.next = first + 1; push_item(std::move(it)); }
	} else {
		v = (R.last >= 0 && (todo >> R.last & 1)) ? R.last : __builtin_ctz(todo);
		u32 rest = todo & ~(1u << v);
		if (rest) { R.deferred = Item(); R.deferred.path = R.path; R.deferred.sleep = R.sleep; R.deferred.fp = fp; R.deferred.mask = rest; R.hasdef = true; R.defalt = v; }
	}
	R.path.push_back(v);
	return v;
}

static void (*fn_setup)(void); static void (*fn_main[MAXRANK])(void);
static void* rank_main(void* p) { long r = (long)p; fn_main[r](); return 0; }
static void* rank0_main(void*) {
	fn_setup();
	on_rt([&] { for (long r = 1; r < nranks; r++) { Fiber* f = new_fiber(r, rank_main, (void*)r, 0); f->vc.join(cur->vc); } tick(); });
	fn_main[0]();
	return 0;
}
static void watch_check(const char* where, uintptr_t pc) {
	if (*watch_at == watch_old) return;
	fprintf(stderr, "exec %lu step %lu fiber %d %s pc %lx (+%lx): %lx -> %lx\n", (unsigned long)S->execs, (unsigned long)R.steps, cur ? cur->id : -1, where, (long)pc, (long)(pc - segs[0].base), (long)watch_old, (long)*watch_at); watch_old = *watch_at;
}
static void reset_exec() {
	for (int i = 0; i < MAXF; i++) {
		Fiber& f = fibers[i];
		if (f.bump) memset(shA + i * SLOT, 0, f.bump);
		if (f.low && f.low < (uintptr_t)f.stack_hi) {
			uintptr_t lo = f.low & ~15ull; if (f.sp && (uintptr_t)f.sp < lo) lo = (uintptr_t)f.sp; lo -= 4096; if (lo < (uintptr_t)f.stack_lo) lo = (uintptr_t)f.stack_lo;
			size_t n = (uintptr_t)f.stack_hi - lo; u64 off = lo - BASE;
			memset((void*)lo, 0, n); memset(shW + off, 0, n * 4); memset(shR + off, 0, n * 4);
		}
		char* lo = f.stack_lo; char* hi = f.stack_hi;
		memset(&f, 0, sizeof f);
		f.id = i; f.stack_lo = lo; f.stack_hi = hi;
		freelist[i].clear();
	}
	for (int r = 0; r < nranks; r++) {
		size_t o = 0;
		for (auto& p : segs[r].parts) {
			size_t n = p.second - p.first; memcpy((void*)p.first, segs[r].snap.data() + o, n); o += n;
			u64 off = REGION + r * GSEG + (p.first - segs[r].lo);
			memset(shW + off, 0, n * 4); memset(shR + off, 0, n * 4);
		}
	}
	if (init_bump) {
		u64 off = INIT_ARENA * SLOT;
		memcpy((void*)(BASE + off), init_snap.data(), init_bump); memcpy(shA + off, init_snapA.data(), init_bump);
		memset(shW + off, 0, init_bump * 4); memset(shR + off, 0, init_bump * 4);
	}
	init_arena_bump = init_bump;
	keygen++; keyused = 0;
	logtext.clear(); det = user_choice = false; memset(gates, 0, sizeof gates); rvc.clear(); warnings = 0; expect_error = 0; hidden.clear(); opt_hide = cfgi("hide_counters", 0);
	memset(child_count, 0, sizeof child_count); memset(ghost, 0, sizeof ghost);
	cfg = args;
	for (auto& m : sims()) if (m.reset) m.reset();
}
static void add_sample(const char* s) {
	if (S->nsample >= 4) return;
	pthread_mutex_lock(&S->mu);
	if (S->nsample < 4) { snprintf(S->sample[S->nsample], 3000, "%s", s); S->nsample++; }
	pthread_mutex_unlock(&S->mu);
}
static std::string* tracebuf;
static void trace_step(Fiber* f) {
	if (!tracebuf || tracebuf->size() > 2800) return;
	char b[128]; snprintf(b, sizeof b, "%st%d:%s", tracebuf->empty() ? "" : " ", f->id, f->choose_n ? f->pname : (f->pname ? f->pname : "?"));
	*tracebuf += b;
}
static volatile sig_atomic_t in_exec;
static u64 wd_serial, wd_steps; static int wd_count;
static void on_signal(int sig, siginfo_t* si, void* uc) {
	ucontext_t* u = (ucontext_t*)uc;
	if (sig == SIGALRM) {
		if (!in_exec) return;
		if (wd_serial == exec_serial && wd_steps == R.steps) { if (++wd_count < 12) return; }
		else { wd_serial = exec_serial; wd_steps = R.steps; wd_count = 0; return; }
		if (!cur) return;
	}
	if (!in_exec) { signal(sig, SIG_DFL); raise(sig); return; }
	in_rt = true;
	uintptr_t ip = u->uc_mcontext.gregs[REG_RIP];
	static char b[512];
	uintptr_t fa = (uintptr_t)si->si_addr;
	bool so = false;
	if (sig == SIGSEGV && fa - BASE < REGION && (fa - BASE) % SLOT >= ARENA) so = true;
	snprintf(b, sizeof b, "%s in %s (address %p)", sig == SIGALRM ? "endless loop" : so ? "stack overflow" : strsignal(sig), pcname_short(ip + 1).c_str(), sig == SIGSEGV ? si->si_addr : 0);
	record_violation(sig == SIGALRM ? "hang" : "crash", std::string(b) + where());
	if (replaying_verbose) fprintf(vout, "  VIOLATION crash: %s\n", b);
	R.violated = true;
	siglongjmp(sig_jmp, 1);
}
/* Runs one execution. */
static void run_exec(Item&& item) {
	exec_serial++; S->execs++;
	reset_exec();
	R.item = std::move(item); R.pos = 0; R.past = false; R.path.clear(); R.sleep.clear(); R.foot.clear(); R.from = 0; R.steps = 0;
	R.fair = false; R.last = -1; R.chose = false; R.hasdef = false; R.violated = R.ended = R.prune = false; R.rr = 0; R.preempt = 0;
	if (R.item.root) R.past = true;
	u64 newtrans = 0;
	Fiber* running = 0;
	new_fiber(0, rank0_main, 0, 0);
	std::string tb; tracebuf = S->nsample < 4 || replaying_verbose ? &tb : 0;
	in_exec = 1;
	int j = sigsetjmp(sig_jmp, 0);
	if (j) {
		sigset_t m; sigemptyset(&m); sigaddset(&m, SIGSEGV); sigaddset(&m, SIGBUS); sigaddset(&m, SIGFPE); sigaddset(&m, SIGABRT); sigaddset(&m, SIGILL); sigaddset(&m, SIGALRM); sigprocmask(SIG_UNBLOCK, &m, 0);
		goto out;
	}
	if (setjmp(sched_jmp)) goto out;
	while (true) {
		if (S->stop || (S->grown && !opt_replay)) { flush_deferred(false); goto out2; }
		Fiber* f;
		if (running && running->st == F_READY && running->choose_n) {
			R.chose = true; if (R.hasdef) flush_deferred(false);
			f = running;
			int v = decide(true, f->choose_n, 0);
			if (v < 0) goto out;
			f->choose_r = v; if (R.past) newtrans++;
			if (replaying_verbose) fprintf(vout, "%4zu t%d choose %s = %d\n", (size_t)R.steps, f->id, f->pname, v);
			trace_step(f);
		} else {
			if (running) { // transition finished
				flush_deferred(true);
				size_t k = 0;
				for (size_t i = 0; i < R.sleep.size(); i++) if (R.sleep[i].f != running->id && !R.sleep[i].foot.conflicts(R.foot)) R.sleep[k++] = R.sleep[i];
				R.sleep.resize(k);
			}
			u32 en = 0; bool any = false;
			for (int i = 0; i < MAXF; i++) if (fibers[i].st == F_READY) { any = true; if (!fibers[i].en || fibers[i].en(&fibers[i])) en |= 1u << i; }
			if (!any) { R.ended = true; break; }
			if (!en) {
				std::string s;
				for (int i = 0; i < MAXF; i++) if (fibers[i].st == F_READY) { char b[128]; snprintf(b, sizeof b, " thread %d (rank %d) waits in %s;", i, fibers[i].rank, fibers[i].pname); s += b; }
				if (replaying_verbose) fprintf(vout, "  VIOLATION deadlock:%s\n", s.c_str());
				record_violation("deadlock", s); R.violated = true; goto out;
			}
			int v = decide(false, 0, en);
			if (v < 0) goto out;
			f = &fibers[v];
			if (R.last >= 0 && R.last != v && (en >> R.last & 1)) R.preempt++;
			R.last = v; R.foot.clear(); R.chose = false;
			R.steps++; if (R.past) newtrans++;
			if (replaying_verbose) fprintf(vout, "%4zu t%d(r%d) %s %lx %lx\n", (size_t)R.steps, f->id, f->rank, f->pname, (long)f->pa[0], (long)f->pa[1]);
			trace_step(f);
			if ((long)R.steps > opt_maxsteps) {
				if (!R.fair) { R.fair = true; S->truncated++; good.push_back(R.from); }
				if ((long)R.steps > opt_maxsteps * 10) {
					std::string s;
					for (int i = 0; i < MAXF; i++) if (fibers[i].st == F_READY) { char b[128]; snprintf(b, sizeof b, " thread %d (rank %d) in %s;", i, fibers[i].rank, fibers[i].pname); s += b; }
					record_violation("livelock", "no termination under fair scheduling:" + s); R.violated = true; goto out;
				}
			}
		}
		running = f;
		// resume
		void** eh = (void**)__cxa_get_globals(); eh[0] = f->eh[0]; eh[1] = f->eh[1]; errno = f->err; std::__once_callable = f->once[0]; std::__once_call = (void (*)())f->once[1];
		if (watch_at) watch_check("switch", 0);
		cur = f; in_rt = false;
		mc_switch(&sched_sp, f->sp);
		f->eh[0] = eh[0]; f->eh[1] = eh[1]; f->err = errno; f->once[0] = std::__once_callable; f->once[1] = (void*)std::__once_call;
		cur = 0;
		if ((uintptr_t)f->sp < f->low) f->low = (uintptr_t)f->sp;
		{ // nothing below the stack pointer may survive (code without instrumentation may have been there, too)
			uintptr_t lo = (f->low & ~63ull) - 4096, hi = (uintptr_t)f->sp;
			if (lo < (uintptr_t)f->stack_lo) lo = (uintptr_t)f->stack_lo;
			memset((void*)lo, 0, hi - lo);
		}
	}
out:
	flush_deferred(false);
	cur = 0; in_rt = false;
	if (R.ended) {
		S->complete++; good.push_back(R.from);
		if (setjmp(sched_jmp) == 0) for (auto& m : sims()) if (m.end) m.end();
		if (tracebuf) add_sample(tb.c_str());
	}
	if (R.violated) good.push_back(R.from);
	if (R.prune) { S->discarded++; good.push_back(R.from); }
out2:
	in_exec = 0; cur = 0; in_rt = false;
	S->trans += newtrans;
	if (R.steps > S->maxdepth) S->maxdepth = R.steps;
}

/* ------------------------------------------------------------ harness interface */
extern "C" {
int mc_rank(void) { return cur ? cur->rank : init_rank; }
int mc_size(void) { return nranks; }
long mc_arg(const char* n, long d) { long r = d; on_rt([&] { auto it = args.find(n); if (it != args.end()) r = it->second; }); return r; }
int mc_choose(int n, const char* what) { user_choice = true; int r = choose(n, what); user_choice = false; return r; }
void mc_det(int on) { det = on; }
static bool en_gate(Fiber* f) { return gates[f->pa[0]] >= (int)f->pa[1]; }
void mc_gate(int id, int n, int on) {
	if (++gates[id] == n && on >= 0) det = on;
	sched("gate", en_gate, id, n);
}
void mc_fail(const char* fmt, ...) {
	in_rt = true;
	va_list ap; va_start(ap, fmt); static char b[4096]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	violate("property", "%s", b);
}
void mc_discard(void) { abandon(); }
void mc_cfg(const char* n, long v) { on_rt([&] { cfg[n] = v; }); }
void mc_note(const char* fmt, ...) {
	va_list ap; va_start(ap, fmt);
	if (replaying_verbose) { bool o = in_rt; in_rt = true; static char b[1024]; vsnprintf(b, sizeof b, fmt, ap); note("%s", b); in_rt = o; }
	va_end(ap);
}
void mc_outcome(const char* fmt, ...) {
	bool o = in_rt; in_rt = true;
	va_list ap; va_start(ap, fmt); char b[96]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	pthread_mutex_lock(&S->mu);
	u32 i; for (i = 0; i < S->noutcome; i++) if (!strcmp(S->outcome[i], b)) break;
	if (i == S->noutcome && i < 8192) { strcpy(S->outcome[i], b); S->noutcome++; }
	if (i < 8192) S->outcount[i]++;
	pthread_mutex_unlock(&S->mu);
	in_rt = o;
}
void mc_set_cpu(int c) { if (cur) cur->cpu = c; }
void mc_use(unsigned long key, int write) { on_rt([&] { pseudo_access(mkkey(90, key), write, "access to a protected resource"); }); }
void mc_yield(void) { sched("yield"); on_rt([&] { touch(mkkey(91, 0), true); }); }
int mc_warnings(void) { return warnings; }

void mc_log_text(const char* text) { on_rt([&] { std::string& s = logtext[cur ? cur->id : -1]; if (s.size() < 500) s += std::string(s.empty() ? "" : " ") + text; }); }
void mc_log(int level, int rank, const char* text) {
	on_rt([&] {
		std::string all; if (!text) { auto it = logtext.find(cur ? cur->id : -1); if (it != logtext.end()) { all = it->second; logtext.erase(it); } text = all.c_str(); }
		if (level >= 2) warnings++;
		if (replaying_verbose && level >= 2) note("log%d: %s", level, text);
		if (level >= 3) {
			if (expect_error) abandon();
			violate("library error", "the library aborts: %s", text);
		}
	});
}
void mc_expect_error(int on) { expect_error = on; }
long mc_ghost_get(int i) { on_rt([&] { touch(mkkey(92, i), false); }); return ghost[i]; }
void mc_ghost_set(int i, long v) { on_rt([&] { touch(mkkey(92, i), true); }); ghost[i] = v; }
long mc_ghost_add(int i, long v) { on_rt([&] { touch(mkkey(92, i), true); }); return ghost[i] += v; }
}

/* ------------------------------------------------------------------ loading */
static int phdr_cb(struct dl_phdr_info* info, size_t, void* data) {
	Seg* s = (Seg*)data;
	if (info->dlpi_addr != s->base) return 0;
	uintptr_t rl = 0, rh = 0;
	for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
		rl = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; rh = (rl + info->dlpi_phdr[i].p_memsz) & ~4095ull;
	}
	s->lo = ~0ull; s->hi = 0;
	for (int i = 0; i < info->dlpi_phnum; i++) {
		auto& p = info->dlpi_phdr[i];
		if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
		uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
		if (rh > lo && rl <= lo) lo = std::min(rh, hi);
		if (lo < hi) s->parts.emplace_back(lo, hi);
		s->lo = std::min(s->lo, lo); s->hi = std::max(s->hi, hi);
	}
	return 1;
}
static void load_ranks(const char* path) {
	for (int r = 0; r < nranks; r++) {
		int fd = memfd_create("rank", 0);
		int in = open(path, O_RDONLY); struct stat st;
		if (in < 0 || fstat(in, &st)) { perror(path); exit(3); }
		std::vector<char> b(st.st_size); if (read(in, b.data(), b.size()) != (ssize_t)b.size()) exit(3); close(in);
		if (write(fd, b.data(), b.size()) != (ssize_t)b.size()) exit(3);
		char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
		init_rank = r;
		void* h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
		init_rank = -1;
		if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
		struct link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm);
		segs[r].base = lm->l_addr;
		fn_main[r] = (void (*)())dlsym(h, "mc_main");
		if (!r) fn_setup = (void (*)())dlsym(h, "mc_setup");
		if (!fn_main[r] || !fn_setup) { fprintf(stderr, "scenario incomplete\n"); exit(3); }
	}
	for (int r = 0; r < nranks; r++) {
		dl_iterate_phdr(phdr_cb, &segs[r]);
		for (auto& p : segs[r].parts) segs[r].snap.insert(segs[r].snap.end(), (char*)p.first, (char*)p.second);
		if (segs[r].hi - segs[r].lo > GSEG) { fprintf(stderr, "too many globals\n"); exit(3); }
	}
	init_bump = init_arena_bump;
	init_snap.assign((char*)(BASE + INIT_ARENA * SLOT), (char*)(BASE + INIT_ARENA * SLOT) + init_bump);
	init_snapA.assign(shA + INIT_ARENA * SLOT, shA + INIT_ARENA * SLOT + init_bump);
}
static void* map_at(uintptr_t at, u64 n, bool shared = false) {
	void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return p;
}

/* --------------------------------------------------------------- work sharing */
static bool donate(const Item& it) {
	size_t need = sizeof(int) * 6 + 8 + it.path.size() * 2 + it.sleep.size() * sizeof(Sleep);
	if (need + 64 > SLOTSZ || it.root) return false;
	pthread_mutex_lock(&S->mu);
	bool ok = S->nq < NSLOT;
	if (ok) {
		char* p = S->slots[S->nq];
		auto put = [&](const void* d, size_t n) { memcpy(p, d, n); p += n; };
		int np = it.path.size(), ns = it.sleep.size(); 
		put(&np, 4); put(&ns, 4); put(&it.fp, 8); put(&it.mask, 4); put(&it.n, 4); put(&it.next, 4);
		put(it.path.data(), np * 2); put(it.sleep.data(), ns * sizeof(Sleep));
		S->nq++;
	}
	pthread_mutex_unlock(&S->mu);
	return ok;
}
static bool fetch(Item& it) {
	pthread_mutex_lock(&S->mu);
	bool ok = S->nq > 0;
	if (ok) {
		S->nq--;
		char* p = S->slots[S->nq];
		auto get = [&](void* d, size_t n) { memcpy(d, p, n); p += n; };
		int np, ns; it = Item();
		get(&np, 4); get(&ns, 4); get(&it.fp, 8); get(&it.mask, 4); get(&it.n, 4); get(&it.next, 4);
		it.path.resize(np); it.sleep.resize(ns);
		get(it.path.data(), np * 2); get(it.sleep.data(), ns * sizeof(Sleep));
	}
	pthread_mutex_unlock(&S->mu);
	return ok;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double deadline; static bool timed_out;
static long max_local = 400000;
static void run_one_item() {
	Item it;
	if (opt_bfs) { it = std::move(work.front()); work.pop_front(); } else { it = std::move(work.back()); work.pop_back(); }
	run_exec(std::move(it));
}
static void worker(int nworkers, long maxexec) {
	long n = 0; bool idle = false;
	while (!S->stop && !S->grown) {
		// newly shared objects only take effect in the next round: collect some more first
		if (S->lastgrow && S->execs > 2 * S->lastgrow + 200) { S->grown = 1; break; }
		if (work.empty()) {
			Item it;
			if (fetch(it)) { if (idle) { S->idle--; idle = false; } work.push_back(std::move(it)); continue; }
			if (!idle) { S->idle++; idle = true; }
			if (S->idle == nworkers && S->nq == 0) return;
			usleep(100); continue;
		}
		run_one_item(); n++;
		if (maxexec && n >= maxexec) return;
		if ((n & 15) == 0 && now() > deadline) { S->stop = 2; return; }
		if (nworkers > 1 && S->nq < 2 * nworkers && work.size() > 1) {
			int k = std::min<size_t>(work.size() / 2, 16);
			for (int i = 0; i < k; i++) { if (!donate(work.front())) break; work.pop_front(); }
		}
	}
}
static void clear_visited() { for (u64 i = 0; i < vcap; i++) { if (vkeys[i].load(std::memory_order_relaxed)) vkeys[i].store(0, std::memory_order_relaxed); } memset((void*)vmask, 0xFF, vcap * 2); }
static void reset_stats() {
	S->idle = 0; S->grown = 0; S->lastgrow = 0; S->nactive = S->nshared; S->nq = 0; S->execs = S->complete = S->pruned = S->sleepblk = S->trans = S->states = S->truncated = S->discarded = S->maxdepth = S->terminal = S->nodes = S->ignored = S->races_supp = 0;
	S->noutcome = 0; memset(S->outcount, 0, sizeof S->outcount); S->nsample = 0; S->nign = 0; memset(S->igncount, 0, sizeof S->igncount);
	work.clear(); edges.clear(); good.clear();
}
static std::string edge_file(int w) { char b[128]; snprintf(b, sizeof b, "/tmp/mc_edges_%d_%d", (int)getppid(), w); return b; }
static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}
static void install_signals() {
	static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, 0);
	struct itimerval tv; tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval; setitimer(ITIMER_REAL, &tv, 0);
}
int main(int argc, char** argv) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (!getenv("MC_NOASLR")) {
		setenv("MC_NOASLR", "1", 1);
		personality(ADDR_NO_RANDOMIZE | personality(0xffffffff));
		execv("/proc/self/exe", argv);
	}
	std::string so, out, replay; int workers = 8; double timeout = 60; long vbits = 22; bool livelock = true;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&]() { return std::string(++i < argc ? argv[i] : ""); };
		if (a == "--so") so = val(); else if (a == "--ranks") nranks = atoi(val().c_str()); else if (a == "--out") out = val();
		else if (a == "--replay") replay = val(); else if (a == "--workers") workers = atoi(val().c_str()); else if (a == "--timeout") timeout = atof(val().c_str());
		else if (a == "--vbits") vbits = atol(val().c_str()); else if (a == "--maxsteps") opt_maxsteps = atol(val().c_str()); else if (a == "--bound") { opt_bound = atol(val().c_str()); opt_por = false; }
		else if (a == "--nopor") opt_por = false; else if (a == "--bfs") { opt_bfs = true; opt_por = false; } else if (a == "--noedges") livelock = opt_edges = false; else if (a == "--novisited") opt_visited = false; else if (a == "--ignore") ignore_pats.push_back(val());
		else { size_t e = a.find('='); if (e == std::string::npos) { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; } args[a.substr(0, e)] = atol(a.substr(e + 1).c_str()); }
	}
	if (nranks < 1 || nranks > MAXRANK) return 3;
	so_path = so; vout = stdout;
	map_at(BASE, REGION);
	shW = (u32*)map_at(0, SHADOW * 4); shR = (u32*)map_at(0, SHADOW * 4); shA = (u8*)map_at(0, SHADOW); pcW = (u32*)map_at(0, SHADOW / 2 + 64); pcR = (u32*)map_at(0, SHADOW / 2 + 64);
	for (int i = 0; i < MAXF; i++) {
		char* b = (char*)(BASE + i * SLOT + ARENA);
		mprotect(b, 4096, PROT_NONE);
		fibers[i].stack_lo = b + 4096; fibers[i].stack_hi = b + STACK;
		mprotect(b + STACK, 4096, PROT_NONE);
	}
	keytab.resize(1 << 15); keymask_ = keytab.size() - 1; for (auto& k : keytab) k.gen = 0;
	S = (Shared*)map_at(0, sizeof(Shared), true);
	pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma);
	vcap = 1ull << vbits;
	vkeys = (std::atomic<u64>*)map_at(0, vcap * 8, true); vmask = (std::atomic<u16>*)map_at(0, vcap * 2, true); memset((void*)vmask, 0xFF, vcap * 2);
	keygen = 1; cfg = args;
	for (auto& m : sims()) if (m.reset) m.reset();
	load_ranks(so.c_str());
	install_signals();
	double t0 = now(); deadline = t0 + timeout;
	if (!replay.empty()) {
		FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 3; }
		char line[1 << 20]; Item it; bool tail = false;
		while (fgets(line, sizeof line, f)) {
			if (!strncmp(line, "path:", 5)) { char* p = line + 5; char* e; while (true) { long v = strtol(p, &e, 10); if (e == p) break; it.path.push_back(v); p = e; } }
			if (!strncmp(line, "shared:", 7)) { char* p = line + 7; char* e; while (true) { u64 v = strtoull(p, &e, 16); if (e == p) break; S->shared[S->nshared] = v; S->nshared++; S->nactive = S->nshared; p = e; } }
		}
		fclose(f); (void)tail;
		opt_replay = true; replaying_verbose = true; opt_visited = false;
		run_exec(std::move(it));
		printf("%s\n", S->viol ? "VIOLATED" : "no violation in this execution");
		if (S->viol) printf("%s: %s\n", S->vkind, S->vtext);
		fflush(stdout); fflush(stderr); _exit(S->viol ? 1 : 0); // no static destructors of the code under test
	}
	// rounds: restart when a newly shared object is discovered
	int rounds = 0; bool exhaustive = false;
	{ // warm-up: one execution, so that lazily initialised state of the C and C++ libraries is the same in all that count
		reset_stats(); clear_visited(); Item r; r.root = true; run_exec(std::move(r));
		if (S->stop == 1) { S->stop = 0; S->viol = 0; }
	}
	while (!S->stop) {
		rounds++; reset_stats(); clear_visited();
		{ Item r; r.root = true; work.push_back(r); }
		worker(1, workers > 1 ? 150 : 0);
		if (S->stop) break;
		if (S->grown || (work.empty() && S->lastgrow)) { work.clear(); edges.clear(); good.clear(); continue; }
		if (work.empty()) { exhaustive = true; break; }
		// parallel phase: hand out what is left
		std::deque<Item> rest; std::swap(rest, work);
		size_t k = 0; std::vector<std::deque<Item> > part(workers);
		for (auto& it : rest) part[k++ % workers].push_back(it);
		S->idle = 0;
		std::vector<pid_t> pids;
		fflush(stdout); fflush(stderr);
		std::vector<std::pair<u64, u64> > e0; std::swap(e0, edges); std::vector<u64> g0; std::swap(g0, good);
		for (int w = 0; w < workers; w++) {
			pid_t p = fork();
			if (!p) {
				prctl(PR_SET_PDEATHSIG, SIGKILL); install_signals();
				work = part[w]; worker(workers, 0);
				if (opt_edges && !S->stop && !S->grown) {
					FILE* f = fopen(edge_file(w).c_str(), "wb");
					if (f) { u64 n = edges.size(); fwrite(&n, 8, 1, f); fwrite(edges.data(), 16, n, f); n = good.size(); fwrite(&n, 8, 1, f); fwrite(good.data(), 8, n, f); fclose(f); }
				}
				_exit(0);
			}
			pids.push_back(p);
		}
		bool bad = false;
		for (size_t i = 0; i < pids.size(); i++) {
			int st = 0; pid_t w; while ((w = waitpid(pids[i], &st, 0)) < 0 && errno == EINTR) {}
			if (w < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) { bad = true; if (!S->viol && !S->stop) { S->stop = 3; fprintf(stderr, "worker status %x\n", st); } }
		}
		std::swap(e0, edges); std::swap(g0, good);
		for (int w = 0; w < workers; w++) {
			char b[128]; snprintf(b, sizeof b, "/tmp/mc_edges_%d_%d", (int)getpid(), w);
			FILE* f = fopen(b, "rb"); if (!f) continue;
			u64 n; if (fread(&n, 8, 1, f) == 1) { size_t o = edges.size(); edges.resize(o + n); if (fread(edges.data() + o, 16, n, f) != n) bad = true; if (fread(&n, 8, 1, f) == 1) { size_t g = good.size(); good.resize(g + n); if (fread(good.data() + g, 8, n, f) != n) bad = true; } }
			fclose(f); unlink(b);
		}
		if (bad && !S->viol && S->stop == 3) { fprintf(stderr, "a worker died\n"); return 3; }
		if (S->stop) break;
		if (S->grown || S->lastgrow) { work.clear(); edges.clear(); good.clear(); continue; }
		exhaustive = true; break;
	}
	if (S->stop >= 2) exhaustive = false;
	// from every state the program can terminate
	u64 stuck = 0, nnodes = 0;
	if (exhaustive && !S->viol && livelock) {
		std::unordered_map<u64, u32> id; id.reserve(edges.size() * 2);
		auto get = [&](u64 f) { auto r = id.emplace(f, (u32)id.size()); return r.first->second; };
		std::vector<std::pair<u32, u32> > rev; rev.reserve(edges.size());
		for (auto& e : edges) { u32 a = get(e.first), b = get(e.second); rev.emplace_back(b, a); }
		std::sort(rev.begin(), rev.end());
		nnodes = id.size();
		std::vector<char> ok(nnodes, 0); std::vector<u32> st;
		for (u64 g : good) { auto it = id.find(g); if (it != id.end() && !ok[it->second]) { ok[it->second] = 1; st.push_back(it->second); } }
		while (!st.empty()) {
			u32 n = st.back(); st.pop_back();
			for (auto it = std::lower_bound(rev.begin(), rev.end(), std::make_pair(n, 0u)); it != rev.end() && it->first == n; ++it) if (!ok[it->second]) { ok[it->second] = 1; st.push_back(it->second); }
		}
		u64 bad = 0;
		for (auto& p : id) if (!ok[p.second]) { stuck++; bad = p.first; }
		if (stuck) {
			// find a path to that state
			std::map<u64, u64> par; // child -> parent, BFS from 0
			std::unordered_map<u64, std::vector<u64> > fwd; for (auto& e : edges) fwd[e.first].push_back(e.second);
			S->viol = 1; snprintf(S->vkind, sizeof S->vkind, "livelock"); snprintf(S->vtext, sizeof S->vtext, "%lu reachable state(s) from which the program can never finish, e.g. state %016lx", (unsigned long)stuck, (unsigned long)bad); S->vlen = 0;
		}
	}
	double wall = now() - t0;
	std::string rtxt;
	if (S->viol) {
		char b[64]; rtxt = std::string("violation: ") + S->vkind + ": " + S->vtext + "\nranks: " + std::to_string(nranks) + "\nso: " + so + "\nargs:";
		for (auto& a : args) rtxt += " " + a.first + "=" + std::to_string(a.second);
		rtxt += "\npath:"; for (u32 i = 0; i < S->vlen; i++) { snprintf(b, sizeof b, " %d", S->vpath[i]); rtxt += b; }
		rtxt += "\nshared:"; for (u64 i = 0; i < S->nactive; i++) { snprintf(b, sizeof b, " %lx", (unsigned long)S->shared[i]); rtxt += b; }
		rtxt += "\n";
	}
	std::string js = "{";
	auto num = [&](const char* n, u64 v) { js += jstr(n) + ": " + std::to_string(v) + ", "; };
	num("executions", S->execs); num("complete", S->complete); num("pruned_visited", S->pruned); num("sleep_blocked", S->sleepblk); num("transitions", S->trans); num("states", S->states); num("truncated", S->truncated); num("discarded", S->discarded);
	num("max_depth", S->maxdepth); num("rounds", rounds); num("shared_objects", S->nshared); num("graph_nodes", nnodes); num("ignored", S->ignored); num("counter_races_exempted", S->races_supp);
	js += "\"exhaustive\": " + std::string(exhaustive && !S->truncated ? "true" : "false") + ", \"timeout\": " + (S->stop == 2 ? "true" : "false") + ", \"table_full\": " + (S->stop == 4 ? "true" : "false") + ", \"wall_s\": " + std::to_string(wall) + ", ";
	js += "\"outcomes\": {"; for (u32 i = 0; i < S->noutcome; i++) js += (i ? ", " : "") + jstr(S->outcome[i]) + ": " + std::to_string(S->outcount[i]); js += "}, ";
	js += "\"known\": {"; for (u32 i = 0; i < S->nign; i++) js += (i ? ", " : "") + jstr(S->ign[i]) + ": " + std::to_string(S->igncount[i]); js += "}, ";
	js += "\"samples\": ["; for (u32 i = 0; i < S->nsample; i++) js += (i ? ", " : "") + jstr(S->sample[i]); js += "], ";
	js += "\"violation\": " + (S->viol ? jstr(std::string(S->vkind) + ": " + S->vtext) : std::string("null")) + ", \"replay\": " + (S->viol ? jstr(rtxt) : std::string("null")) + "}";
	if (out.empty()) printf("%s\n", js.c_str()); else { FILE* f = fopen(out.c_str(), "w"); if (!f) return 3; fprintf(f, "%s\n", js.c_str()); fclose(f); }
	fflush(stdout); fflush(stderr); _exit(S->viol ? 1 : 0);
}
