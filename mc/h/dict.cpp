/* transfer::MPICache: every history of announcements, withdrawals and queries on two
 * neighbouring dictionary entries, against an ordered list of bounded length. */
#include "common.h"
#include "asagi.h"
#include <stdlib.h>
#include <algorithm>
#include "allocator/default.h"
#include "mpi/mpicomm.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "transfer/mpicache.h"
template<bool lock> class Dict : public transfer::MPICache<allocator::Default, lock>
{
	typedef transfer::MPICache<allocator::Default, lock> Base;
public:
	asagi::Grid::Error init(unsigned cs, unsigned long bc, const mpi::MPIComm& c, numa::NumaComm& n) { return Base::init(cs, bc, c, n); }
	long fetch(unsigned long b) { return Base::fetchBlockInfo(Base::dictionary(b)); }
	void update(unsigned long b, unsigned long e) { Base::updateBlockInfo(Base::dictionary(b), e); }
	long fetchUpdate(unsigned long b, unsigned long e) { return Base::fetchAndUpdateBlockInfo(Base::dictionary(b), e); }
	void del(unsigned long b, long e) { Base::deleteBlockInfo(Base::dictionary(b), e); }
	long* entry(unsigned long b) { return Base::dictionary(b); }
	unsigned size() const { return Base::dictEntrySize(); }
	unsigned total() const { return Base::totalDictEntrySize(); }
	unsigned long cacheSize() const { return Base::rankCacheSize(); }
};
struct Ref { long e[8]; int n; } static ref[2];
static int cap;
static void add(Ref& r, long e) { if (r.n == cap) r.n--; for (int i = r.n; i > 0; i--) r.e[i] = r.e[i - 1]; r.e[0] = e; r.n++; }
static void remove(Ref& r, long e) { for (int i = 0; i < r.n; i++) if (r.e[i] == e) { for (; i < r.n - 1; i++) r.e[i] = r.e[i + 1]; r.n--; r.e[r.n] = 0; return; } }
static bool has(Ref& r, long e) { for (int i = 0; i < r.n; i++) if (r.e[i] == e) return true; return false; }
static void checkFetch(Ref& r, long f)
{
	if (r.n == 0) MC_CHECK(f < 0, "holder %ld is reported for a block nobody holds", f);
	else { MC_CHECK(f >= 0, "\"not cached\" is reported for a block with %d holder(s)", r.n); MC_CHECK(has(r, f), "holder %ld is reported, it does not hold the block", f); }
	mc_outcome(f < 0 ? "fetch: not cached" : "fetch: holder");
}
template<bool lock> static void run()
{
	int ne = mc_arg("holders", 5), nb = mc_arg("entries", 2), act = mc_arg("active", nb);
	numa::Numa nm; nm.setThreads(1); bool m; nm.registerThread(m);
	numa::NumaComm* nc = nm.createComm();
	mpi::MPIComm comm;
	Dict<lock>* d = new Dict<lock>();
	MC_CHECK(d->init(3, nb, comm, *nc) == asagi::Grid::SUCCESS, "init fails");
	cap = d->size();
	MC_CHECK(d->cacheSize() == 3, "cache size");
	for (int b = 0; b < nb; b++) for (unsigned i = 0; i < d->total(); i++) MC_CHECK(d->entry(b)[i] == -1, "the dictionary does not start empty");
	if (lock) for (int b = 0; b < nb; b++) d->entry(b)[d->size()] = 4711 + b;
	while (true) {
		int op = mc_choose(4 * act + 1, "operation"); if (op == 4 * act) break;
		int b = op % act; op /= act;
		Ref& r = ref[b];
		if (op == 0) checkFetch(r, d->fetch(b));
		else {
			long e = mc_choose(ne, "holder");
			if (op == 1 || op == 2) {
				if (has(r, e)) continue; // a holder announces itself once
				if (op == 1) d->update(b, e); else checkFetch(r, d->fetchUpdate(b, e));
				if (r.n == cap) mc_outcome("oldest holder dropped");
				add(r, e);
			} else { mc_outcome(has(r, e) ? "withdrawn" : "withdrawn although not listed"); d->del(b, e); remove(r, e); }
		}
		for (int k = 0; k < nb; k++) {
			long* x = d->entry(k);
			for (int i = 0; i < ref[k].n; i++) { bool found = false; for (int j = 0; j < cap; j++) if (x[j] == ref[k].e[i]) found = true; MC_CHECK(found, "the directory lost holder %ld of block %d", ref[k].e[i], k); }
			int cnt = 0; for (int j = 0; j < cap; j++) if (x[j] >= 0) { cnt++; MC_CHECK(has(ref[k], x[j]), "the directory lists %ld as holder of block %d, it was withdrawn or never announced", x[j], k); }
			MC_CHECK(cnt == ref[k].n, "the directory lists %d holders of block %d instead of %d", cnt, k, ref[k].n);
			if (lock) MC_CHECK(x[d->size()] == 4711 + k, "the lock word of block %d is overwritten", k);
		}
	}
	delete d; delete nc;
}
void mc_setup() {}
void mc_main() { if (mc_arg("lock", 1)) run<true>(); else run<false>(); }
