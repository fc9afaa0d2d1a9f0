/* Several threads of one process, each with a grid of its own (created, opened,
 * read and closed concurrently); optionally on the same file. */
#include "common.h"
#include "asagi.h"
#include <stdio.h>
#include <string.h>
using asagi::Grid;
static float buf[64];
static int N, NT, LK, CY;
static double valueOf(int f, long e) { return 1 + f * 1000 + e; }
static int fileOf(int t) { return mc_arg("samefile", 0) ? 0 : t; }
void mc_setup()
{
	N = mc_arg("n", 4); NT = mc_arg("nt", 2);
	for (int i = 0; i < 8; i++) mc_numa_node(i, i % (int)mc_arg("nd", 1));
	mc_cfg("mpi_multiple", !mc_arg("serial_mpi", 0));
	for (int f = 0; f < NT; f++) {
		char s[32]; sprintf(s, "file%d.nc", f);
		int id = mc_nc_file(s), d = mc_nc_dim(id, "x", N), v = mc_nc_var(id, "z", 5, 1, &d);
		for (int e = 0; e < N; e++) buf[e] = valueOf(f, e);
		mc_nc_data(id, v, buf, N * 4);
	}
}
static void worker(int t, void*)
{
	mc_set_cpu(t);
	int type = t == 0 ? mc_arg("type", 0) : mc_arg("type2", mc_arg("type", 0));
	static const char* gt[] = {"FULL", "CACHE", "PASS_THROUGH"};
	for (int c = 0; c < CY; c++) {
		Grid* g = Grid::create();
		g->setParam("GRID", gt[type], 0);
		g->setParam("BLOCK_SIZE_0", "2", 0);
		g->setParam("CACHE_SIZE", "1", 0);
		char s[32]; sprintf(s, "file%d.nc", fileOf(t));
		if (mc_arg("missing", 0) && t == 1) strcpy(s, "missing.nc");
		Grid::Error e = g->open(s, 0);
		MC_CHECK((e == Grid::SUCCESS) == (strcmp(s, "missing.nc") != 0), "open of %s in thread %d returns %d", s, t, e);
		if (e == Grid::SUCCESS) for (int i = 0; i < LK; i++) {
			int k = mc_arg("fixed", 1) ? (i * 3 + t) % N : mc_choose(N, "position");
			double p[1] = {(double)k};
			float v = g->getFloat(p, 0);
			MC_CHECK(v == (float)valueOf(fileOf(t), k), "element %d of thread %d's grid is %g", k, t, v);
		}
		Grid::close(g);
	}
}
void mc_main()
{
	N = mc_arg("n", 4); NT = mc_arg("nt", 2); LK = mc_arg("lk", 1); CY = mc_arg("cycles", 1);
	long mem = 0;
	if (mc_arg("leak", 0)) { mc_det(1); mc_parallel(NT, worker); mc_det(0); mem = mc_live("mem"); }
	mc_parallel(NT, worker);
	if (mc_arg("leak", 0)) {
		static const char* kinds[] = {"comm", "group", "type", "win", "req", "file", "msg"};
		for (int i = 0; i < 7; i++) MC_CHECK(mc_live(kinds[i]) == 0, "after closing the grids %ld object(s) of kind %s remain", mc_live(kinds[i]), kinds[i]);
		MC_CHECK(mc_live("mem") <= mem, "after closing the grids %ld block(s) of memory remain", mc_live("mem") - mem);
	}
}
