/* Grids with more elements and blocks than a 32-bit number can count. The virtual file
 * computes its content. Looked up are the positions around the powers of two at which
 * narrower types would overflow, and the borders of the grid. */
#include "common.h"
#include "asagi.h"
#include <stdio.h>
#include <sched.h>
using asagi::Grid;

static int D, NT; static unsigned long N[4];
static Grid* g;
static void params()
{
	D = mc_arg("dims", 1); NT = mc_arg("nt", 1);
	int bits = mc_arg("bits", 33);
	for (int i = 0; i < D; i++) N[i] = (1ul << (bits / D + (i < bits % D ? 1 : 0))) + 3 + 2 * i;
	if (mc_arg("thin", 0)) for (int i = 0; i < D; i++) N[i] = i == mc_arg("thin", 0) - 1 ? (1ul << bits) + 5 : 2 + i;
}
void mc_setup()
{
	params();
	for (int i = 0; i < 8; i++) mc_numa_node(i, i % mc_arg("nd", 1));
	int f = mc_nc_file("huge.nc"), ids[4]; const char* names[] = {"w", "v", "u", "t"};
	for (int i = 0; i < D; i++) ids[i] = mc_nc_dim(f, names[i], N[D - 1 - i]);
	mc_nc_var(f, "z", 5 /* NC_FLOAT */, D, ids);
}
/* interesting indices of a dimension */
static unsigned long spot(int i, int k)
{
	unsigned long n = N[i], c[] = {0, n - 1, n / 2, 0x7FFFFFFFul, 0x80000000ul, 0xFFFFFFFFul, 0x100000000ul, 0x100000001ul, 0x10000ul, n - 2};
	return c[k] < n ? c[k] : n - 1 - c[k] % n % 3;
}
static void lookup()
{
	double pos[4]; unsigned long e = 0;
	int same = mc_arg("same", 0) ? mc_choose(10, "position") : -1;
	for (int i = 0; i < D; i++) pos[i] = spot(i, same >= 0 ? (same + 3 * i) % 10 : mc_choose(D == 1 ? 10 : 3, "position"));
	for (int i = D - 1; i >= 0; i--) e = e * N[i] + (unsigned long)pos[i];
	float v = g->getFloat(pos);
	MC_CHECK(v == (float)mc_nc_virtual_value(e), "lookup of element %lu returns %g, the file holds %ld", e, v, mc_nc_virtual_value(e));
}
static void worker(int t, void*)
{
	mc_set_cpu(t);
	int r = g->open("huge.nc");
	MC_CHECK(r == Grid::SUCCESS, "open fails with %d", r);
	if (t == 0) for (int i = 0; i < D; i++) {
		double lo = g->getMin(i), hi = g->getMax(i);
		MC_CHECK(lo > -0.501 && lo < -0.499 && hi > N[i] - 1 + 0.499 && hi < N[i] - 1 + 0.501, "range of dimension %d is %.12g to %.12g", i, lo, hi);
		MC_CHECK(g->getDelta(i) == 1, "spacing of dimension %d is %g", i, g->getDelta(i));
	}
	for (int k = 0; k < mc_arg("lk", 2); k++) lookup();
}
void mc_main()
{
	params();
	g = Grid::create(Grid::FLOAT);
	static const char* types[] = {"FULL", "CACHE", "PASS_THROUGH"};
	g->setParam("GRID", types[mc_arg("type", 1)]);
	char n[16], v[16];
	for (int i = 0; i < D; i++) { sprintf(n, "BLOCK_SIZE_%d", i); sprintf(v, "%ld", mc_arg("b", 2)); g->setParam(n, v); }
	sprintf(v, "%ld", mc_arg("cs", 1)); g->setParam("CACHE_SIZE", v);
	g->setThreads(NT);
	mc_parallel(NT, worker);
	mc_outcome("looked up");
	delete g;
}
