/* Grid parameters: spelling, defaults, levels and what each of them selects, observed
 * through file reads, counters, messages and values. */
#include "common.h"
#include "asagi.h"
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#include <math.h>
#include <netcdf.h>
using asagi::Grid;
enum { SPELL, BLOCKS, LEVELS, GRIDTYPE, CACHESIZE, SPREAD, VARIABLE, POSITION, MPI, NUMA, OVERRIDE };
static int test, ch[16], nch;
static float buf[4096];
static int ids[4], fid, vid, vid2;
static Grid* g;
static int choose(int n, const char* what) { int v = mc_choose(n, what); mc_ghost_set(100 + nch, v); ch[nch++] = v; return v; }
static void file(const char* name, int D, const long* n, double base)
{
	fid = mc_nc_file(name); long total = 1;
	static const char* dn[] = {"c", "b", "a"};
	for (int k = 0; k < D; k++) { ids[k] = mc_nc_dim(fid, dn[k], n[D - 1 - k]); total *= n[D - 1 - k]; }
	vid = mc_nc_var(fid, "z", NC_FLOAT, D, ids);
	for (long e = 0; e < total; e++) buf[e] = base + e;
	mc_nc_data(fid, vid, buf, total * 4);
}
/* spelling variants of a name or a value: 0 upper, 1 lower, 2 mixed; +3: dashes */
static void spell(char* out, const char* s, int variant)
{
	int i = 0;
	for (; s[i]; i++) {
		char c = s[i]; if (c == '_' && variant >= 3) c = '-';
		out[i] = variant % 3 == 0 ? c : variant % 3 == 1 ? tolower(c) : i % 2 ? tolower(c) : c;
	}
	out[i] = 0;
}
static int nv, vv;          // spelling of names and values in this execution
static void set(const char* n, const char* v, int l = 0, bool value = true) { char a[64], b[64]; spell(a, n, nv); if (value) spell(b, v, vv); else strcpy(b, v); g->setParam(a, b, l); }
static void setn(const char* n, long v, int l = 0) { char s[32]; sprintf(s, "%ld", v); set(n, s, l, false); }
static float get(double x, double y = 0, int l = 0) { double p[3] = {x, y, 0}; return g->getFloat(p, l); }
static const long BN0 = 66, BN1 = 3;
static const int CS_N = 130;
void mc_setup()
{
	test = mc_arg("test", 0); mc_count_reads();
	for (int i = 0; i < 8; i++) mc_numa_node(i, i % (int)mc_arg("nd", 1));
	mc_cfg("mpi_multiple", !mc_arg("serial_mpi", 0));
	if (mc_size() > 1 || test == NUMA) mc_det(1);
	mc_cfg("count_mpi", 1);
	if (mc_arg("spell", 1)) { choose(6, "spelling of names"); choose(6, "spelling of values"); } else nch = 2;
	long n1[] = {6}, n2[] = {BN0, BN1}, nc[] = {CS_N}, n8[] = {8};
	switch (test) {
	case BLOCKS: file("grid.nc", 2, n2, 1); choose(7, "block size 0"); choose(7, "block size 1"); choose(4, "time dimension"); break;
	case LEVELS: file("grid.nc", 1, n8, 1); choose(3, "block size of level 0"); choose(3, "block size of level 1"); choose(3, "cache size of level 0"); choose(3, "cache size of level 1"); choose(2, "variable of level 0"); choose(2, "variable of level 1"); break;
	case GRIDTYPE: file("grid.nc", 1, n8, 1); choose(6, "grid type"); break;
	case CACHESIZE: file("grid.nc", 1, nc, 1); choose(5, "cache size"); break;
	case SPREAD: file("grid.nc", 1, n8, 1); choose(10, "hand spread"); break;
	case VARIABLE: file("grid.nc", 1, n1, 1); choose(7, "variable"); break;
	case POSITION: file("grid.nc", 1, n1, 1); choose(4, "value position"); break;
	case MPI: file("grid.nc", 1, n8, 1); choose(4, "MPI communication"); choose(2, "grid type"); break;
	case NUMA: file("grid.nc", 1, n8, 1); choose(4, "NUMA communication"); choose(2, "grid type"); break;
	case OVERRIDE: file("grid.nc", 1, n8, 1); break;
	}
	if (test == VARIABLE || test == LEVELS) {
		static const char* names[] = {"Z", "data", "DATA", "my-Var_1", "MY_VAR_1"};
		for (int k = 0; k < 5; k++) { int v = mc_nc_var(fid, names[k], NC_FLOAT, 1, ids); long n = test == VARIABLE ? 6 : 8; for (long e = 0; e < n; e++) buf[e] = 1 + (k + 1) * 100 + e; mc_nc_data(fid, v, buf, n * 4); if (!k) mc_ghost_set(120, v); }
	}
	mc_ghost_set(121, fid); mc_ghost_set(122, vid);
}
static long reads(long e, int v = -1) { return mc_nc_elem_reads(mc_ghost_get(121), v < 0 ? mc_ghost_get(122) : v, e); }
static long readsum(long n, int v = -1) { long s = 0; for (long e = 0; e < n; e++) s += reads(e, v); return s; }
static Grid::Error open(int l = 0) { return g->open("grid.nc", l); }
static void mustOpen(int l = 0) { Grid::Error e = open(l); MC_CHECK(e == Grid::SUCCESS, "open of level %d fails with %d", l, e); }
static void testBlocks()
{
	static const long val[] = {0, -1, 1, 2, 3, 64, 70};
	long b[2] = {val[ch[2]], val[ch[3]]}, n[2] = {BN0, BN1}; int td = ch[4] - 2; // -2: not set
	set("GRID", "CACHE"); setn("CACHE_SIZE", 2);
	if (b[0]) setn("BLOCK_SIZE_0", b[0]);
	if (b[1]) setn("BLOCK_SIZE_1", b[1]);
	if (td > -2) setn("TIME_DIMENSION", td);
	mustOpen();
	MC_CHECK(readsum(BN0 * BN1) == 0, "a cached grid reads the file when it is opened");
	for (int i = 0; i < 2; i++) { if (b[i] < 0) b[i] = n[i]; if (!b[i]) b[i] = i == td ? 1 : 64; if (b[i] > n[i]) b[i] = n[i]; }
	MC_CHECK(get(0, 0) == 1, "wrong value");
	for (long y = 0; y < BN1; y++) for (long x = 0; x < BN0; x++) {
		long want = x < b[0] && y < b[1];
		MC_CHECK(reads(y * BN0 + x) == want, "lookup of (0, 0): value (%ld, %ld) was read %ld times, expected blocks of %ld x %ld", x, y, reads(y * BN0 + x), b[0], b[1]);
	}
	mc_outcome("%ld x %ld", b[0], b[1]);
}
static void testLevels()
{
	long b[2], cs[2]; int var[2]; set("GRID", "CACHE");
	for (int l = 0; l < 2; l++) {
		b[l] = ch[2 + l]; cs[l] = ch[4 + l]; var[l] = ch[6 + l];
		if (b[l]) setn("BLOCK_SIZE_0", b[l], l);
		if (cs[l]) setn("CACHE_SIZE", cs[l], l);
		if (var[l]) set("VARIABLE", "Z", l, false);
	}
	mustOpen(0); mustOpen(1);
	int va[2] = {(int)mc_ghost_get(122), (int)mc_ghost_get(120)};
	for (int l = 0; l < 2; l++) {
		long bs = b[l] ? b[l] : 8, size = cs[l] ? cs[l] : 128, n[2] = {readsum(8, va[0]), readsum(8, va[1])};
		MC_CHECK(get(0, 0, l) == 1 + var[l] * 100, "level %d reads another variable", l);
		MC_CHECK(readsum(8, va[var[l]]) == n[var[l]] + bs && readsum(8, va[!var[l]]) == n[!var[l]], "level %d: %ld values read by a lookup, the block size is %ld", l, readsum(8, va[var[l]]) - n[var[l]], bs);
		long blocks = (8 + bs - 1) / bs;
		for (long k = 0; k < blocks; k++) get(k * bs, 0, l); // all blocks once
		long m = readsum(8, va[var[l]]);
		if (blocks <= size) { for (long k = 0; k < blocks; k++) get(k * bs, 0, l); MC_CHECK(readsum(8, va[var[l]]) == m, "level %d: a cache of %ld blocks lost one of %ld blocks", l, size, blocks); }
		else { for (long k = 0; k < blocks; k++) get(k * bs, 0, l); MC_CHECK(readsum(8, va[var[l]]) > m, "level %d: a cache of %ld blocks keeps %ld blocks", l, size, blocks); }
	}
}
static void testGridType()
{
	static const char* t[] = {0, "FULL", "CACHE", "PASS_THROUGH", "SOMETHING", "CACHED"};
	if (t[ch[2]]) set("GRID", t[ch[2]]);
	setn("BLOCK_SIZE_0", 4); int type = ch[2] == 2 ? 1 : ch[2] == 3 ? 2 : 0;
	mustOpen();
	MC_CHECK(readsum(8) == (type == 0 ? 8 : 0), "open of a %s grid reads %ld values", type == 0 ? "full" : type == 1 ? "cached" : "pass-through", readsum(8));
	for (int k = 0; k < 2; k++) MC_CHECK(get(1) == 2, "wrong value");
	long want = type == 0 ? 8 : type == 1 ? 4 : 2;
	MC_CHECK(readsum(8) == want, "after two lookups in a %s grid %ld values were read, expected %ld", type == 0 ? "full" : type == 1 ? "cached" : "pass-through", readsum(8), want);
	mc_outcome("type %d", type);
}
static void testCacheSize()
{
	static const int val[] = {0, 1, 2, 3, 100}; int size = val[ch[2]] ? val[ch[2]] : 128;
	set("GRID", "CACHE"); setn("BLOCK_SIZE_0", 1); if (val[ch[2]]) setn("CACHE_SIZE", size);
	mustOpen();
	for (int r = 0; r < 2; r++) for (int e = 0; e < size; e++) get(e);
	MC_CHECK(readsum(CS_N) == size, "%ld blocks read, the cache can hold all %d", readsum(CS_N), size);
	get(size); MC_CHECK(readsum(CS_N) == size + 1, "wrong number of reads");
	for (int e = 0; e <= size; e++) get(e);
	MC_CHECK(readsum(CS_N) > size + 1, "a cache of %d blocks keeps %d blocks", size, size + 1);
}
static void testSpread()
{
	static const int val[] = {-99, -1, -7, 0, 1, 2, 3, 4, 5, 9}; int sp = val[ch[2]]; const int size = 4;
	set("GRID", "CACHE"); setn("BLOCK_SIZE_0", 1); setn("CACHE_SIZE", size); if (sp != -99) setn("CACHE_HAND_SPREAD", sp);
	mustOpen();
	/* second chance with two hands: the block that is evicted determines the reads */
	long slot[size]; bool ref[size]; for (int i = 0; i < size; i++) { slot[i] = -1; ref[i] = false; }
	unsigned page = size - 1, clr = sp < 0 ? size / 2 : sp % size;
	for (int n = 0; n < mc_arg("depth", 6); n++) {
		int b = mc_choose(6, "block"); bool hit = false;
		long before = readsum(8);
		for (int i = 0; i < size; i++) if (slot[i] == b) { hit = true; ref[i] = true; }
		if (!hit) { do { ref[clr] = false; page = (page + 1) % size; clr = (clr + 1) % size; } while (ref[page]); ref[page] = true; slot[page] = b; }
		MC_CHECK(get(b) == 1 + b, "wrong value");
		MC_CHECK(readsum(8) - before == !hit, "hand spread %d: lookup of block %d reads %ld blocks, expected %d", sp, b, readsum(8) - before, !hit);
	}
}
static void testVariable()
{
	static const char* names[] = {0, "z", "Z", "data", "DATA", "my-Var_1", "my_Var_1"}; static const int base[] = {1, 1, 101, 201, 301, 401, -1};
	int k = ch[2]; if (names[k]) set("VARIABLE", names[k], 0, false);
	Grid::Error e = open();
	if (base[k] < 0) { MC_CHECK(e == Grid::VAR_NOT_FOUND, "open of a missing variable returns %d", e); return; }
	MC_CHECK(e == Grid::SUCCESS, "open fails with %d", e);
	for (int i = 0; i < 6; i++) MC_CHECK(get(i) == base[k] + i, "value %g of variable %s", get(i), names[k] ? names[k] : "(default)");
}
static void testPosition()
{
	static const char* v[] = {0, "CELL_CENTERED", "VERTEX_CENTERED", "SOMETHING"};
	if (v[ch[2]]) set("VALUE_POSITION", v[ch[2]]);
	mustOpen(); double half = ch[2] == 2 ? 0 : 0.5;
	MC_CHECK(fabs(g->getMin(0) + half) < 1e-8 && fabs(g->getMax(0) - 5 - half) < 1e-8, "range is %g to %g", g->getMin(0), g->getMax(0));
}
static void testMpi()
{
	static const char* v[] = {0, "OFF", "WINDOW", "THREAD"}; int k = ch[2] ? ch[2] : 2; if (k == 3 && mc_arg("serial_mpi", 0)) k = 2;
	if (v[ch[2]]) set("MPI_COMMUNICATION", v[ch[2]]);
	if (ch[3]) set("GRID", "CACHE"); setn("BLOCK_SIZE_0", 4); setn("CACHE_SIZE", 2);
	if (k == 3) Grid::startCommThread(-1);
	MC_CHECK(g->setComm() == Grid::SUCCESS, "setComm fails");
	mustOpen();
	mc_gate(0, mc_size(), -1);
	if (!ch[3]) MC_CHECK(readsum(8) == (k == 1 ? 8 * mc_size() : 8), "%ld values were read by opening a full grid with MPI communication %s", readsum(8), v[k]);
	long s = mc_mpi_count("sends"), r = mc_mpi_count("gets") + mc_mpi_count("puts") + mc_mpi_count("atomics") + mc_mpi_count("locks");
	mc_gate(1, mc_size(), -1);
	if (mc_rank() == 0) { for (int i = 0; i < 8; i++) MC_CHECK(get(i) == 1 + i, "wrong value"); }
	mc_gate(2, mc_size(), -1);
	if (mc_rank() == 1) { for (int i = 0; i < 8; i++) MC_CHECK(get(i) == 1 + i, "wrong value"); }
	mc_gate(3, mc_size(), -1);
	s = mc_mpi_count("sends") - s; r = mc_mpi_count("gets") + mc_mpi_count("puts") + mc_mpi_count("atomics") + mc_mpi_count("locks") - r;
	long mt = g->getCounter("mpi_transfers");
	if (k == 1) MC_CHECK(s == 0 && r == 0 && mt == 0, "%ld messages and %ld one-sided operations although MPI communication is off", s, r);
	if (k == 2) MC_CHECK(s == 0 && r > 0, "%ld messages and %ld one-sided operations with window communication", s, r);
	if (k == 3) MC_CHECK(s > 0 && r == 0, "%ld messages and %ld one-sided operations with a communication thread", s, r);
	if (k > 1 && ch[3] == 0) MC_CHECK(mt > 0, "no block was transferred");
	if (k > 1 && ch[3] == 1) MC_CHECK(readsum(8) == 8, "%ld values read by distributed caches", readsum(8));
	if (k == 1 && ch[3] == 1) MC_CHECK(readsum(8) == 16, "%ld values read by separate caches", readsum(8));
	mc_outcome("%s", v[k]);
	mc_gate(4, mc_size(), -1);
	Grid::close(g);
	if (k == 3) Grid::stopCommThread();
}
static void numaWorker(int t, void*)
{
	mc_set_cpu(t); mustOpen();
	mc_gate(0, 2 * mc_size(), -1);
	for (int k = 0; k < 2 * mc_size(); k++) {
		if (k == t + 2 * mc_rank()) for (int r = 0; r < 2; r++) for (int i = 0; i < 8; i++) MC_CHECK(get(i) == 1 + i, "wrong value");
		mc_gate(1 + k, 2 * mc_size(), -1);
	}
}
static void testNuma()
{
	static const char* v[] = {0, "ON", "OFF", "CACHE"}; int k = ch[2] ? ch[2] : 1; bool cache = ch[3], two = mc_arg("nd", 1) > 1;
	if (v[ch[2]]) set("NUMA_COMMUNICATION", v[ch[2]]);
	if (cache) set("GRID", "CACHE"); setn("BLOCK_SIZE_0", 2); setn("CACHE_SIZE", 8);
	g->setThreads(2); if (mc_size() > 1) g->setComm();
	mc_parallel(2, numaWorker);
	long nt = g->getCounter("numa_transfers"), mt = g->getCounter("mpi_transfers"), fl = g->getCounter("file_loads"), acc = g->getCounter("accesses");
	MC_CHECK(acc == 32, "%ld accesses counted, 32 made", acc);
	if (mc_size() == 1) {
		MC_CHECK(readsum(8) == 8, "%ld values read, the domains share 8", readsum(8));
		if (k == 2 || !two) MC_CHECK(nt == 0, "%ld NUMA transfers although NUMA detection is off", nt);
		else MC_CHECK(nt == 4, "%ld NUMA transfers, each of the 4 blocks must be transferred once", nt);
		MC_CHECK(fl == (cache ? 4 : 0), "%ld file loads", fl);
	} else if (!cache) { // each rank owns two blocks (one per domain)
		MC_CHECK(readsum(8) == 8, "%ld values read, the ranks share 8", readsum(8));
		if (k == 2) MC_CHECK(nt == 0 && mt == 2, "NUMA off: %ld NUMA and %ld MPI transfers", nt, mt);
		if (k == 1) MC_CHECK(nt == 2 && mt == 4, "NUMA on: %ld NUMA and %ld MPI transfers", nt, mt);
		if (k == 3) MC_CHECK(nt == 4 && mt == 2, "NUMA cache: %ld NUMA and %ld MPI transfers", nt, mt);
	}
	mc_outcome("%s: numa %ld mpi %ld", v[k], nt, mt);
	Grid::close(g);
}
void mc_main()
{
	test = mc_arg("test", 0); for (int i = 0; i < 16; i++) ch[i] = mc_ghost_get(100 + i);
	nv = ch[0]; vv = ch[1];
	g = Grid::create();
	switch (test) {
	case BLOCKS: testBlocks(); break; case LEVELS: testLevels(); break; case GRIDTYPE: testGridType(); break; case CACHESIZE: testCacheSize(); break; case SPREAD: testSpread(); break;
	case VARIABLE: testVariable(); break; case POSITION: testPosition(); break; case MPI: testMpi(); return; case NUMA: testNuma(); return;
	case OVERRIDE: // the last value counts, however the name was spelled
		g->setParam("GRID", "FULL"); set("GRID", "CACHE"); g->setParam("block-size-0", "3"); setn("BLOCK_SIZE_0", 2); mustOpen(); get(0);
		MC_CHECK(readsum(8) == 2, "%ld values read, expected a block of 2", readsum(8)); break;
	}
	Grid::close(g);
}
