/* numa::Numa and numa::NumaComm: all assignments of threads to NUMA nodes, all arrival
 * orders; every thread registers (several times), the masters create communicators,
 * broadcast and allocate memory. */
#include "common.h"
#include "asagi.h"
#include "allocator/default.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
static numa::Numa* nm[2];
static const int MAXT = 6;
static int nt, node[MAXT], detect, regs;
static struct Res { unsigned int tid, did, dom, thr; bool master; numa::NumaComm* comm[2]; int value; int* mem; } res[2][MAXT];
static int failing;
static void use(int k, int t)
{
	if (failing) { // the detection fails in some threads: an error in all of them, and nobody waits forever
		for (int i = 0; i < regs; i++) { bool m; asagi::Grid::Error e = nm[k]->registerThread(m, detect); MC_CHECK(e == asagi::Grid::NUMA_ERROR, "NUMA detection fails in %d thread(s), thread %d gets %d", failing, t, e); }
		return;
	}
	numa::Numa& n = *nm[k]; Res& r = res[k][t];
	for (int i = 0; i < regs; i++) {
		bool m = i & 1;
		asagi::Grid::Error e = n.registerThread(m, detect);
		MC_CHECK(e == asagi::Grid::SUCCESS, "registerThread fails with %d in thread %d", e, t);
		if (i) MC_CHECK(r.tid == n.threadId() && r.did == n.domainId() && r.master == m && r.dom == n.totalDomains(), "registration %d of thread %d gives another identity (domain %u/%u, master %d/%d)", i + 1, t, r.did, n.domainId(), r.master, m);
		r.tid = n.threadId(); r.did = n.domainId(); r.dom = n.totalDomains(); r.thr = n.totalThreads(); r.master = m;
		MC_CHECK(r.did < r.dom, "domain id %u of thread %d, but only %u domains", r.did, t, r.dom);
		MC_CHECK(r.thr == (unsigned)nt, "%u threads announced, %u reported", nt, r.thr);
	}
	if (mc_arg("comm", 1) && r.master) {
		for (int j = 0; j < 2; j++) {
			r.comm[j] = n.createComm();
			MC_CHECK(r.comm[j], "createComm fails in domain %u", r.did);
			MC_CHECK(r.comm[j]->totalDomains() == r.dom && r.comm[j]->domainId() == r.did, "the communicator reports other domains");
			unsigned root = (j + 1) % r.dom;
			int v = r.did == root ? 100 + j : -1;
			MC_CHECK(r.comm[j]->broadcast(v, root) == asagi::Grid::SUCCESS && v == 100 + j, "broadcast in communicator %d delivers %d to domain %u", j, v, r.did);
		}
		MC_CHECK(r.comm[1]->allocate<allocator::Default>(3, r.mem) == asagi::Grid::SUCCESS, "allocation fails");
		for (int i = 0; i < 3; i++) r.mem[i] = r.did;
		mc_yield();
		for (int i = 0; i < 3; i++) MC_CHECK(r.mem[i] == (int)r.did, "the memory of domain %u overlaps with that of domain %d", r.did, r.mem[i]);
	}
	if (mc_arg("bcast", 1)) {
		int v = r.tid == 0 ? 41 + k : 0;
		MC_CHECK(n.broadcast(v) == asagi::Grid::SUCCESS && v == 41 + k, "broadcast delivers %d to thread %d", v, t);
	}
}
static void worker(int t, void*)
{
	mc_set_cpu(t);
	for (int k = 0; k < mc_arg("instances", 1); k++) use(k, t);
}
void mc_setup() {}
void mc_main()
{
	nt = mc_arg("threads", 2); detect = mc_arg("detect", 1); regs = mc_arg("regs", 2);
	int nodes = mc_arg("nodes", nt);
	failing = 0;
	for (int i = 0; i < nt; i++) { node[i] = mc_choose(nodes, "node of thread"); if (mc_arg("fail", 0) && mc_choose(2, "detection fails")) { node[i] = -1; failing++; } mc_numa_node(i, node[i] * mc_arg("mult", 1)); }
#ifdef ASAGI_NONUMA
	for (int i = 0; i < nt; i++) node[i] = 0;
	failing = 0;
#elif defined(DEBUG_NUMA)
	for (int i = 0; i < nt; i++) node[i] = i;
#endif
	for (int k = 0; k < mc_arg("instances", 1); k++) { nm[k] = new numa::Numa(); MC_CHECK(nm[k]->setThreads(nt) == asagi::Grid::SUCCESS, "setThreads fails"); }
	mc_parallel(nt, worker);
	for (int k = 0; k < mc_arg("instances", 1); k++) {
		if (failing) { mc_outcome("error"); delete nm[k]; continue; }
		Res* r = res[k];
		unsigned dom = 0, masters = 0, used = 0, tids = 0;
		for (int i = 0; i < nt; i++) {
			bool first = true; for (int j = 0; j < i; j++) if (!detect || node[j] == node[i]) first = false;
			dom += first; masters += r[i].master; used |= 1u << r[i].did;
			MC_CHECK(!(tids >> r[i].tid & 1) && r[i].tid < (unsigned)nt, "thread id %u is not unique in 0..%d", r[i].tid, nt - 1); tids |= 1u << r[i].tid;
			for (int j = 0; j < i; j++) {
				bool same = !detect || node[i] == node[j];
				MC_CHECK((r[i].did == r[j].did) == same, "threads %d and %d on nodes %d and %d have domain ids %u and %u", j, i, node[j], node[i], r[j].did, r[i].did);
				MC_CHECK(!(same && r[i].master && r[j].master), "domain %u has two masters", r[i].did);
			}
			MC_CHECK(i == 0 || r[i].dom == r[0].dom, "threads disagree on the number of domains");
		}
		MC_CHECK(r[0].dom == dom, "%u domains reported, there are %u", r[0].dom, dom);
		MC_CHECK(masters == dom, "%u masters for %u domains", masters, dom);
		MC_CHECK(used == (1u << dom) - 1, "the domain ids are not 0..%u", dom - 1);
		mc_outcome("%u domain(s)", dom);
		if (mc_arg("comm", 1)) {
			numa::NumaComm* c[2] = {0, 0};
			int* first = 0;
			for (int i = 0; i < nt; i++) if (r[i].master) {
				for (int j = 0; j < 2; j++) { MC_CHECK(!c[j] || c[j] == r[i].comm[j], "two domains got different communicators"); c[j] = r[i].comm[j]; }
				if (r[i].did == 0) first = r[i].mem;
			}
			MC_CHECK(c[0] != c[1], "two communicators are the same");
			c[1]->free<allocator::Default>(first);
			delete c[0]; delete c[1];
		}
		delete nm[k];
	}
}
