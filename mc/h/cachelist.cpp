/* cache::CacheList: all operation histories of any length (the state space is finite)
 * against a reference model of the two-handed clock. */
#include "common.h"
#include "cache/cachelist.h"
static const int MAXS = 8;
static long slotBlock[MAXS]; static bool ref[MAXS]; static int used;
static unsigned page, clear_;
void mc_setup() {}
void mc_main()
{
	int size = mc_arg("size", 2), nb = mc_arg("blocks", 4), hd = mc_arg("spread", -1), ghost = mc_arg("ghost", 1);
	cache::CacheList* l = new cache::CacheList();
	l->init(size, hd);
	for (int i = 0; i < size; i++) slotBlock[i] = -1;
	page = size - 1; clear_ = hd < 0 ? size / 2 : hd % size;
	int depth = mc_arg("depth", 0);
	for (int n = 0; !depth || n < depth; n++) {
		int op = mc_choose(2 * nb + 1, "operation");
		if (op == 2 * nb) break;
		if (!depth) n = 0;
		long b = op % nb; bool peek = op >= nb;
		int at = -1;
		for (int i = 0; i < size; i++) if (slotBlock[i] == b) { MC_CHECK(at < 0, "model"); at = i; }
		unsigned long idx = 77;
		bool hit = l->getIndex(b, idx, !peek);
		MC_CHECK(hit == (at >= 0), "lookup of block %ld: found=%d, expected %d", b, hit, at >= 0);
		if (hit) { MC_CHECK(idx == (unsigned long)at, "block %ld found in slot %lu, it is in slot %d", b, idx, at); if (!peek) ref[at] = true; mc_outcome("hit"); continue; }
		if (peek) continue;
		// reference: two-handed clock
		do { ref[clear_] = false; page = (page + 1) % size; clear_ = (clear_ + 1) % size; } while (ref[page]);
		ref[page] = true;
		long victim = slotBlock[page]; slotBlock[page] = b;
		long old = l->getFreeIndex(b, idx);
		MC_CHECK(idx < (unsigned long)size, "slot %lu does not exist", idx);
		MC_CHECK(old < 0 || used == size, "block %ld is evicted while %d slot(s) are free", old, size - used);
		MC_CHECK(idx == page, "block %ld is put into slot %lu, second chance selects slot %u", b, idx, page);
		MC_CHECK(old == victim, "evicted block is said to be %ld, it is %ld", old, victim);
		mc_outcome(old < 0 ? "free slot" : "eviction");
		if (used < size) used++;
	}
	if (mc_arg("del", 1)) delete l;
}
