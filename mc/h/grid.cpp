/* Complete grids through the public interface: threads, NUMA domains and ranks open
 * a grid of one or more levels, look values up and close it. The reference is the
 * content of the (virtual) file: element e of level l holds base(l) + e. */
#include "common.h"
#include "asagi.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sched.h>
using asagi::Grid;

static int D, NT, ND, LV, LK, NP, CY, CS; static bool warm;
static long N[4], B[4];      // sizes, block sizes in the order of the position vector
static int fid[8], vid[8];
static float buf[4096];

static long A(const char* n, long d) { return mc_arg(n, d); }
/* shape of a level; vary=1: every level has its own shape, block and cache size */
static long SZ(int l, int i) { return N[i] + (A("vary", 0) ? l : 0); }
static long BS(int l, int i) { return B[i] > 0 && A("vary", 0) ? B[i] + l : B[i]; }
static long CSZ(int l) { return CS && A("vary", 0) ? CS + l : CS; }
static long EB(int l, int i) { long bs = BS(l, i), n = SZ(l, i); if (bs <= 0) bs = bs < 0 ? n : 64; return bs > n ? n : bs; }
static long total(int l) { long t = 1; for (int i = 0; i < D; i++) t *= SZ(l, i); return t; }
static double valueOf(int l, long e) { return 1 + (A("onefile", 0) == 2 ? 0 : l) * 1000 + e; }
static void params()
{
	D = A("dims", 1); NT = mc_rank() > 0 && A("ntr", 0) ? A("ntr", 0) : A("nt", 1); ND = A("nd", 1); LV = A("levels", 1); LK = A("lk", 1); CS = A("csmax", 0) ? mc_ghost_get(108) : A("cs", 2);
	char n[8];
	for (int i = 0; i < 4; i++) { sprintf(n, "n%d", i); N[i] = A(n, 4); sprintf(n, "b%d", i); B[i] = A(n, 2); }
	if (A("shapes", 0)) for (int i = 0; i < D; i++) { N[i] = mc_ghost_get(100 + i); B[i] = mc_ghost_get(104 + i); }
	NP = A("np", 0);
}
/* onefile=1: all levels are variables of one file, onefile=2: the same variable */
static void filename(char* s, int l) { sprintf(s, "level%d.nc", A("onefile", 0) ? 0 : l); }
static void varname(char* s, int l) { if (A("onefile", 0) == 1) sprintf(s, "Var%d", l); else strcpy(s, "z"); }
static void faults()
{
	static const char* what[] = {"", "nc_open", "nc_inq_varid:z", "alloc", "MPI_Alloc_mem", "MPI_Win_create", "MPI_Comm_dup", "nc_get_varm", "MPI_Type_commit"};
	if (A("fault", 0)) mc_nc_fault(what[A("fault", 0)], A("fault_rank", 0), A("fault_budget", 1));
}
void mc_setup()
{
	if (A("shapes", 0)) for (int i = 0; i < A("dims", 1); i++) { // every shape up to the given one
		mc_ghost_set(100 + i, 1 + mc_choose(A("shapes", 0), "size"));
		mc_ghost_set(104 + i, mc_choose(A("bmax", 3) + 1, "block size") - (A("bneg", 0) ? 1 : 0));
		if (mc_ghost_get(104 + i) == 0 && A("bneg", 0)) mc_ghost_set(104 + i, A("bmax", 3));
	}
	if (A("csmax", 0)) mc_ghost_set(108, 1 + mc_choose(A("csmax", 0), "cache size"));
	if (A("smax", 0)) mc_ghost_set(109, -1 + mc_choose(A("smax", 0), "hand spread"));
	params();
	if (A("det", 0)) mc_det(1);
	mc_cfg("mpi_multiple", !A("serial_mpi", 0)); mc_cfg("mpi_eager", A("eager", 1));
	for (int i = 0; i < 8; i++) mc_numa_node(i, A("block_nodes", 0) ? i * ND / NT : i % ND);
	if (A("reads", 0)) mc_count_reads();
	if (B[0] >= 5) mc_cfg("big", B[0] * 4);
	for (int l = 0; l < LV; l++) {
		char f[32], v[32]; filename(f, l); varname(v, l);
		if (A("onefile", 0) == 2 && l) { fid[l] = fid[0]; vid[l] = vid[0]; continue; }
		static int ids[4];
		if (!l || !A("onefile", 0)) {
			fid[l] = mc_nc_file(f);
			const char* names[] = {"w", "v", "u", "t"};
			for (int i = 0; i < D; i++) ids[i] = mc_nc_dim(fid[l], names[i], SZ(l, D - 1 - i));
		} else fid[l] = fid[0];
		vid[l] = mc_nc_var(fid[l], v, 5 /* NC_FLOAT */, D, ids);
		for (long e = 0; e < total(l); e++) buf[e] = valueOf(l, e);
		mc_nc_data(fid[l], vid[l], buf, total(l) * 4);
	}
	if (!A("leak", 0)) faults();
}

static Grid* g;
/* threads of all ranks; ranks other than 0 may have fewer */
static int threads() { return mc_size() > 1 && A("ntr", 0) ? A("nt", 1) + (mc_size() - 1) * A("ntr", 0) : A("nt", 1) * mc_size(); }
static int opened[8];
static void set(const char* n, const char* v, int l) { g->setParam(n, v, l); }
static void setn(const char* n, long v, int l) { char s[32]; sprintf(s, "%ld", v); g->setParam(n, s, l); }
static long elemOf(int l, const double* pos) { long e = 0; for (int i = D - 1; i >= 0; i--) e = e * SZ(l, i) + (long)pos[i]; return e; }
static void posOf(int l, long e, double* pos) { for (int i = 0; i < D; i++) { pos[i] = e % SZ(l, i); e /= SZ(l, i); } }
static void lookup(int l, long e)
{
	double pos[4]; posOf(l, e, pos);
	float v = g->getFloat(pos, l);
	MC_CHECK(v == (float)valueOf(l, e), "lookup of element %ld of level %d returns %g, the file holds %g", e, l, v, valueOf(l, e));
}
/* the k-th of NP positions: spread over the grid so that different blocks are hit */
static int spots(int l) { return NP && NP < total(l) ? NP : total(l); }
static long spot(int l, int k) { return spots(l) == total(l) ? k : (long)k * A("stride", total(l) / NP) % total(l); }
/* what the threads of this rank did (one slot per thread) */
struct Did { int err[8]; long looks[8]; unsigned long blocks[8]; short seq[8][12]; } did[8];
#ifdef ASAGI_NONUMA
static int nodeOf(int) { return 0; }
#elif defined(DEBUG_NUMA) // every thread is its own domain
static int nodeOf(int t) { return A("numa", 1) == 0 ? 0 : t; }
#else
static int nodeOf(int t) { return A("numa", 1) == 0 ? 0 : (A("block_nodes", 0) ? t * ND / NT : t % ND); }
#endif
static long blockOf(int l, long e) { long b = 0; double p[4]; posOf(l, e, p); for (int i = D - 1; i >= 0; i--) b = b * ((SZ(l, i) + EB(l, i) - 1) / EB(l, i)) + (long)p[i] / EB(l, i); return b; }
static long firstOfBlock(int l, long e) { double p[4]; posOf(l, e, p); for (int i = 0; i < D; i++) p[i] = (long)p[i] / EB(l, i) * EB(l, i); return elemOf(l, p); }
static long nblocks(int l) { return blockOf(l, total(l) - 1) + 1; }
static bool distributed() { return mc_size() > 1 && !A("nocomm", 0) && A("mpi", 0) != 0 && A("type", 0) != 2; }
static bool ok(int t) { for (int l = 0; l < LV; l++) if (did[t].err[l]) return false; return true; }
static long cnt(const char* n, int l) { return g->getCounter(n, l); }
static int domains() { if (A("numa", 1) == 0) return 1; int m = 0, n = 0; for (int t = 0; t < NT; t++) if (!(m & 1 << nodeOf(t))) { m |= 1 << nodeOf(t); n++; } return n; }
/* after open: every element was read once by the one owner, or once by each process that keeps a copy */
static void checkOpenReads()
{
	for (int l = 0; l < LV; l++) {
		if (A("onefile", 0) == 2 && l) break;
		for (long e = 0; e < total(l); e++) {
			long want = A("type", 0) ? 0 : distributed() ? 1 : mc_size();
			if (A("onefile", 0) == 2) want *= LV;
			long got = mc_nc_elem_reads(fid[l], vid[l], e);
			MC_CHECK(got == want, "element %ld of level %d was read %ld times by the open, expected %ld", e, l, got, want);
		}
	}
}
/* The misses of level l, if they are determined: the cache of a domain holds everything or
 * one block, and the order of the lookups of a domain is known. Blocks of a full grid are
 * at the thread that read them. nu/mp: transfers from other domains and other ranks (full
 * grids). */
struct Misses { bool exact, split; long all, nu, mp; };
static Misses misses(int l)
{
	Misses m = {CSZ(l) == 1 || CSZ(l) >= nblocks(l), true, 0, 0, 0};
	if (A("type", 0) == 2 || A("onefile", 0) == 2) { m.exact = false; return m; }
	unsigned long cached[8]; memset(cached, 0, sizeof cached);
	for (int t = 0; t < NT; t++) for (int u = 0; u < t; u++) if (!A("seq", 0) && !(CSZ(l) >= nblocks(l))) m.exact &= nodeOf(t) != nodeOf(u);
	for (int t = 0; t < NT; t++) for (int i = 0; i < did[t].looks[l]; i++) {
		if (i >= 12) { m.exact = false; return m; }
		long e = did[t].seq[l][i], b = blockOf(l, e); int d = nodeOf(t);
		int o = mc_nc_elem_reader(fid[l], vid[l], e); bool mine = !distributed() || o / 8 == mc_rank();
		if (A("type", 0) == 0 && mine && nodeOf(o % 8) == d) continue;
		if (cached[d] >> b & 1) continue;
		m.all++;
		bool near = mine;
		if (A("numa", 1) == 2 && !mine) { if (!A("seq", 0)) m.split = false; for (int x = 0; x < 8; x++) near |= cached[x] >> b & 1; }
		if (near) m.nu++; else m.mp++;
		cached[d] = CSZ(l) == 1 ? 1ul << b : cached[d] | 1ul << b;
	}
	return m;
}
/* after the lookups: ghost 20.. looked up blocks of all ranks, 40.. file loads counted */
static void checkLookupReads()
{
	bool last = mc_ghost_add(19, 1) == mc_size();
	for (int l = 0; l < LV; l++) {
		unsigned long m = 0, s = 0; long n = 0;
		for (int t = 0; t < NT; t++) { m |= did[t].blocks[l]; n += did[t].looks[l]; }
		for (int d = 0; d < 8; d++) { unsigned long k = 0; for (int t = 0; t < NT; t++) if (nodeOf(t) == d) k |= did[t].blocks[l]; s += __builtin_popcountl(k); }
		mc_ghost_set(20 + l * 2, mc_ghost_get(20 + l * 2) | m);
		long acc = cnt("accesses", l), nu = cnt("numa_transfers", l), mp = cnt("mpi_transfers", l), fi = cnt("file_loads", l);
		mc_ghost_add(40 + l, fi); mc_ghost_add(48 + l, s); mc_ghost_add(56 + l, n); mc_ghost_add(64, mp); mc_ghost_add(66 + l, nu + mp + fi);
		if (A("counters", 0)) {
			MC_CHECK(acc == n, "%ld accesses counted on level %d, %ld made", acc, l, n);
			MC_CHECK(cnt("local_hits", l) == acc - nu - mp - fi && cnt("node_hits", l) == acc - mp - fi && cnt("local_misses", l) == nu + mp + fi, "derived counters do not add up");
			MC_CHECK(nu >= 0 && mp >= 0 && fi >= 0 && nu + mp + fi <= acc, "more transfers (%ld, %ld, %ld) than accesses (%ld)", nu, mp, fi, acc);
			MC_CHECK(mp == 0 || distributed(), "MPI transfers in one process");
			MC_CHECK(nu == 0 || domains() > 1, "NUMA transfers with one domain");
			if (A("type", 0) == 2) MC_CHECK(fi == n, "%ld file loads counted, %ld made", fi, n);
			if (A("type", 0) == 0) {
				MC_CHECK(fi == 0, "%ld file loads of a full grid", fi);
				if (!distributed() && domains() == 1) MC_CHECK(nu == 0, "misses in a local full grid");
			}
			Misses m = misses(l);
			if (m.exact) MC_CHECK(nu + mp + fi == m.all, "%ld transfers counted on level %d (%ld from domains, %ld by MPI, %ld files), there were %ld", nu + mp + fi, l, nu, mp, fi, m.all);
			if (m.exact && m.split && A("type", 0) == 0) MC_CHECK(nu == m.nu && mp == m.mp, "%ld transfers between domains and %ld between processes counted on level %d, there were %ld and %ld", nu, mp, l, m.nu, m.mp);
			/* nothing is evicted: each domain fetches each block once at most */
			if (A("type", 0) < 2 && CSZ(l) >= nblocks(l)) MC_CHECK(nu + mp + fi <= (long)s, "%ld blocks fetched, only %ld different ones looked up", nu + mp + fi, s);
			if (A("type", 0) == 1 && CSZ(l) >= nblocks(l)) MC_CHECK(nu + mp + fi == (long)s, "%ld blocks fetched, %ld different ones looked up", nu + mp + fi, s);
		}
	}
	/* every block of at least 5 elements is larger than the control messages */
	if (A("counters", 0) && B[0] >= 5) { long x = 0; for (int l = 0; l < LV; l++) x += cnt("mpi_transfers", l); MC_CHECK(mc_mpi_count("big") == x, "rank %d fetched %ld blocks by MPI, %ld counted", mc_rank(), mc_mpi_count("big"), x); }
	if (!last) return;
	for (int l = 0; l < LV; l++) {
		if (A("onefile", 0) == 2) break;
		unsigned long m = mc_ghost_get(20 + l * 2); long loads = 0;
		for (long e = 0; e < total(l); e++) {
			long got = mc_nc_elem_reads(fid[l], vid[l], e);
			if (A("type", 0) == 0) { MC_CHECK(got == (distributed() ? 1 : mc_size()), "element %ld of level %d was read again by a lookup", e, l); continue; }
			if (A("type", 0) == 2) { loads += got; continue; }
			MC_CHECK(got == mc_nc_elem_reads(fid[l], vid[l], firstOfBlock(l, e)), "block of element %ld was not read as a whole", e);
			if (firstOfBlock(l, e) == e) loads += got;
			bool used = m >> blockOf(l, e) & 1;
			MC_CHECK(used || !got, "element %ld of level %d was read, but nobody looked up its block", e, l);
			MC_CHECK(!used || got, "element %ld of level %d was never read", e, l);
			if (A("once", 0)) MC_CHECK(got <= A("once", 0), "block of element %ld of level %d was read %ld times while it was in a cache", e, l, got);
		}
		if (A("type", 0) == 2) MC_CHECK(loads == mc_ghost_get(56 + l), "%ld values read for %ld lookups", loads, mc_ghost_get(56 + l));
		if (A("type", 0) == 1) MC_CHECK(loads <= mc_ghost_get(56 + l), "%ld blocks read for %ld lookups", loads, mc_ghost_get(56 + l));
		if (A("type", 0) == 1 && CSZ(l) >= nblocks(l)) MC_CHECK(loads <= mc_ghost_get(48 + l), "%ld blocks read, only %ld were not in the cache", loads, mc_ghost_get(48 + l));
		if (A("counters", 0) && A("type", 0) == 1) MC_CHECK(loads == mc_ghost_get(40 + l), "%ld blocks of level %d were read from the file, %ld counted", loads, l, mc_ghost_get(40 + l));
	}
}
static Grid::Error openLevel(int l)
{
	char f[32]; filename(f, l);
	if (A("missing", 0) == 1) strcpy(f, "missing.nc");
	return g->open(f, l);
}
static void worker(int t, void*)
{
	if (A("cpus", 1)) mc_set_cpu(t);
	if (!opened[0] || A("reopen", 0)) {
		for (int k = 0; k < LV; k++) {
			int l = A("reverse", 0) ? LV - 1 - k : k;
			Grid::Error e = openLevel(l);
			if (e != Grid::SUCCESS && A("retry", 0) && !A("missing", 0)) e = openLevel(l);
			did[t].err[l] = e;
			MC_CHECK(e == Grid::SUCCESS || A("fault", 0) || A("missing", 0), "open of level %d fails with error %d in thread %d of rank %d", l, e, t, mc_rank());
			if (A("missing", 0)) MC_CHECK(e == (A("missing", 0) == 1 ? Grid::NOT_OPEN : Grid::VAR_NOT_FOUND), "open of something missing returns %d", e);
			if (A("between", 0) && !warm && e == Grid::SUCCESS) lookup(l, spot(l, mc_choose(spots(l), "position")));
		}
	}
	if (A("warmup", 0) && !warm && ok(t)) { // the other processes read everything, still without branching
		if (mc_rank() && t == 0) for (int k = 0; k < spots(0); k++) lookup(0, spot(0, k));
		if (A("mpi", 0) == 2) for (int i = 0; i < 30; i++) sched_yield(); // the announcements arrive
	}
	if (A("det", 0) && !warm) mc_gate(0 + CY * 5, threads(), A("seq", 0) ? 1 : 0);
	if (A("reads", 0) && !warm) { mc_gate(2 + CY * 5, threads(), -1); if (t == 0 && mc_rank() == 0) checkOpenReads(); mc_gate(3 + CY * 5, threads(), -1); }
	/* seq=1: one thread after the other, the caches then know all blocks read before */
	int turn = mc_rank() * NT + t; bool seq = A("seq", 0) && !warm;
	if (seq && turn) mc_gate(10 + turn, 2, -1);
	if (ok(t) && (!A("only", 0) || warm || mc_rank() == 0)) {
		int n = A("lk0", -1) >= 0 && t == 0 && mc_rank() == 0 ? A("lk0", 0) : LK;
		for (int i = 0; i < n; i++) {
			int l = LV > 1 && A("oneLevel", 0) == 0 && !warm ? mc_choose(LV, "level") : (LV > 1 ? (t + mc_rank()) % LV : 0);
			int k = A("fixed", 0) || warm ? (t * 3 + mc_rank() * 5 + i) % spots(l) : mc_choose(spots(l), "position");
			lookup(l, spot(l, k));
			if (A("counters", 0) && did[t].looks[l] < 12) did[t].seq[l][did[t].looks[l]] = spot(l, k);
			did[t].looks[l]++; did[t].blocks[l] |= 1ul << blockOf(l, spot(l, k));
		}
	}
	if (seq && A("mpi", 0) == 2) for (int i = 0; i < 30; i++) sched_yield(); // the announcements arrive
	if (seq && turn + 1 < threads()) mc_gate(10 + turn + 1, 2, -1);
	if (A("det", 0) || warm) mc_gate(1 + CY * 5, threads(), 1);
	if (A("reads", 0) && !warm) mc_gate(4 + CY * 5, threads(), -1);
}
static void commthread(bool start)
{
#ifndef ASAGI_NOMPI
	if (A("mpi", 0) != 2) return;
	if (start) { Grid::Error e = Grid::startCommThread(A("sched_cpu", -1)); MC_CHECK(e == Grid::SUCCESS, "startCommThread fails with %d", e); }
	else Grid::stopCommThread();
#endif
}
static void cycle()
{
	commthread(true);
	g = Grid::create();
#ifndef ASAGI_NOMPI
	if (mc_size() > 1 && !A("nocomm", 0)) { Grid::Error e = g->setComm(); MC_CHECK(e == Grid::SUCCESS, "setComm fails with %d", e); }
#endif
	if (NT > 1) g->setThreads(NT);
	static const char* gt[] = {"FULL", "CACHE", "PASS_THROUGH"};
	static const char* mp[] = {"OFF", "WINDOW", "THREAD"};
	static const char* nu[] = {"OFF", "ON", "CACHE"};
	set("GRID", gt[A("type", 0)], 0); set("MPI_COMMUNICATION", mp[A("mpi", 0)], 0); set("NUMA_COMMUNICATION", nu[A("numa", 1)], 0);
	for (int l = 0; l < LV; l++) {
		char n[32];
		for (int i = 0; i < D; i++) { sprintf(n, "BLOCK_SIZE_%d", i); if (B[i]) setn(n, BS(l, i), l); }
		char v[32]; varname(v, l); if (A("missing", 0) == 2) strcpy(v, "nothing"); if (strcmp(v, "z")) set("VARIABLE", v, l);
		if (CS) setn("CACHE_SIZE", CSZ(l), l);
		if (A("smax", 0)) setn("CACHE_HAND_SPREAD", mc_ghost_get(109), l);
		else if (A("spread", -99) != -99) setn("CACHE_HAND_SPREAD", A("spread", -99), l);
	}
	memset(did, 0, sizeof did);
	mc_parallel(NT, worker);
	for (int l = 0; l < LV; l++) {
		bool fail = did[0].err[l] != 0;
		for (int t = 1; t < NT; t++) MC_CHECK((did[t].err[l] != 0) == fail, "open of level %d returns %d in thread 0 and %d in thread %d", l, did[0].err[l], did[t].err[l], t);
	}
	if (A("fault", 0) && !A("retry", 0)) {
		MC_CHECK(ok(0) || mc_faults_taken(-1) > 0, "open fails although nothing failed");
		MC_CHECK(!ok(0) || !mc_faults_taken(mc_rank()), "open succeeds in rank %d although a step of it failed there", mc_rank());
		mc_outcome(ok(0) ? "success" : "failure");
	}
	if (A("fault", 0) && A("retry", 0)) { MC_CHECK(ok(0), "open fails again although nothing failed any more"); mc_outcome(mc_faults_taken(-1) ? "retried" : "success"); }
	if (A("reads", 0) && !warm && ok(0)) checkLookupReads();
	Grid::close(g);
	commthread(false);
}
void mc_main()
{
	params();
	long mem = 0;
	int leak = A("leak", 0);
	if (leak) { // one cycle without branching: what the library keeps for good
		mc_det(1); warm = true; CY = 11; cycle(); warm = false;
		mc_gate(60, mc_size(), A("det", 0));
		mem = mc_live("mem"); if (mc_rank() == 0) faults();
		mc_gate(61, mc_size(), -1);
	}
	for (int c = 0; c < A("cycles", 1); c++) {
		CY = c; cycle();
		if (leak) {
			static const char* kinds[] = {"comm", "group", "type", "win", "req", "file", "msg"};
			for (int i = 0; i < 7; i++) MC_CHECK(mc_live(kinds[i]) == 0, "after closing the grid %ld object(s) of kind %s remain", mc_live(kinds[i]), kinds[i]);
			MC_CHECK(mc_live("mem") <= mem, "after closing the grid %ld block(s) of memory remain", mc_live("mem") - mem);
		}
	}
}
