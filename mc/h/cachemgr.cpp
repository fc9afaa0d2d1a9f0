/* cache::CacheManager: threads obtain, fill, use and release the slots of one or two
 * caches. Every slot holds a stamp (block, version); the versions written last are
 * kept beside it. All of it is plain memory, so that missing exclusion is also
 * reported as a data race. */
#include "common.h"
#include "cache/cachemanager.h"
static const int MAXS = 8, MAXB = 8, BS = 16;
static int slots, blocks, nops, nt, two;
struct Stamp { long block, version; };
struct Cache { cache::CacheManager* m; unsigned char* mem; long version[MAXB]; int owner[MAXS]; long slotver[MAXS]; };
static Cache c[2];
static void own(Cache& k, unsigned long s, int t)
{
	MC_CHECK(s < (unsigned long)slots, "slot %lu does not exist", s);
	MC_CHECK(k.owner[s] == 0, "slot %lu is handed to thread %d while thread %d uses it", s, t, k.owner[s] - 1);
	k.owner[s] = t + 1;
}
static void leave(Cache& k, unsigned long s, int t, long block)
{
	Stamp* st = (Stamp*)(k.mem + s * BS);
	MC_CHECK(k.owner[s] == t + 1, "slot %lu changed hands while thread %d used it", s, t);
	MC_CHECK(st->block == block + 1, "slot %lu was refilled with block %ld while thread %d used it for block %ld", s, st->block - 1, t, block);
	k.owner[s] = 0; k.m->unlock(s);
}
static void tryget(Cache& k, long b, int t)
{
	unsigned long s = 99; const unsigned char* d = 0;
	if (!k.m->tryGet(b, s, d)) { mc_outcome("tryGet: no"); return; }
	mc_outcome("tryGet: yes");
	own(k, s, t);
	MC_CHECK(d == k.mem + s * BS, "tryGet returns a pointer that does not belong to slot %lu", s);
	const Stamp* st = (const Stamp*)d;
	MC_CHECK(st->block == b + 1, "tryGet of block %ld returns block %ld", b, st->block - 1);
	MC_CHECK(st->version == k.version[b], "tryGet of block %ld returns outdated content", b);
	mc_yield();
	leave(k, s, t, b);
}
static void get(Cache& k, long b, int t)
{
	unsigned long s = 99; unsigned char* d = 0;
	long old = k.m->get(b, s, d);
	own(k, s, t);
	MC_CHECK(d == k.mem + s * BS, "get returns a pointer that does not belong to slot %lu", s);
	Stamp* st = (Stamp*)d;
	if (old == b) {
		mc_outcome("hit");
		MC_CHECK(st->block == b + 1, "hit for block %ld, but slot %lu holds block %ld", b, s, st->block - 1);
		MC_CHECK(st->version == k.version[b], "hit for block %ld returns outdated content", b);
	} else {
		mc_outcome(old < 0 ? "miss, empty slot" : "miss, block replaced");
		MC_CHECK(st->block == (old < 0 ? 0 : old + 1), "the evicted block of slot %lu is said to be %ld, it is %ld", s, old, st->block - 1);
		if (old >= 0) MC_CHECK(st->version == k.slotver[s], "the evicted block %ld has outdated content", old);
		if (two && mc_choose(2, "copy from the other cache")) tryget(&k == &c[0] ? c[1] : c[0], b, t);
		st->block = b + 1; st->version = k.version[b] = k.slotver[s] = 1 - k.version[b];
	}
	mc_yield();
	if (mc_arg("touch", 0)) st->version = k.version[b] = k.slotver[s] = 1 - k.version[b];
	leave(k, s, t, b);
}
static void worker(int t, void*)
{
	Cache& k = c[two ? t % 2 : 0];
	for (int i = 0; i < nops; i++) {
		long b = mc_choose(blocks, "block");
		if (!two && mc_arg("try", 1) && mc_choose(2, "get or tryGet")) tryget(k, b, t); else get(k, b, t);
	}
}
void mc_setup() {}
void mc_main()
{
	slots = mc_arg("slots", 2); blocks = mc_arg("blocks", 3); nops = mc_arg("ops", 2); nt = mc_arg("threads", 2); two = mc_arg("two", 0);
	for (int i = 0; i <= two; i++) { c[i].m = new cache::CacheManager(); c[i].mem = new unsigned char[MAXS * BS]; c[i].m->init(c[i].mem, slots, BS, mc_arg("spread", -1)); for (int s = 0; s < slots * BS; s++) MC_CHECK(c[i].mem[s] == 0, "cache memory not initialised"); }
	mc_parallel(nt, worker);
	// all slots have been released and the contents are still there
	for (int i = 0; i <= two; i++) {
		int seen[MAXB] = {0};
		for (int s = 0; s < slots; s++) { long b = ((Stamp*)(c[i].mem + s * BS))->block; MC_CHECK(c[i].owner[s] == 0, "slot %d not released", s); if (b) { MC_CHECK(!seen[b], "block %ld occupies two slots", b - 1); seen[b] = 1; } }
		for (long b = 0; b < blocks; b++) {
			unsigned long s; const unsigned char* d;
			bool r = c[i].m->tryGet(b, s, d);
			MC_CHECK(r == (bool)seen[b + 1], "block %ld: cached=%d, but found=%d", b, seen[b + 1], r);
			if (r) { MC_CHECK(((const Stamp*)d)->block == b + 1, "block %ld found in the slot of block %ld", b, ((const Stamp*)d)->block - 1); c[i].m->unlock(s); }
		}
		delete c[i].m; delete [] c[i].mem;
	}
}
