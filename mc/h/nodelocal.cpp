/* asagi::Grid::nodeLocalRank for every assignment of ranks to nodes */
#include "common.h"
#include "asagi.h"
#include <mpi.h>
#include <string.h>
#include <stdio.h>
#include <string>
static const char* names[16]; static int nn;
static char longn[2][MPI_MAX_PROCESSOR_NAME];
static void init()
{
	nn = 0;
	// plain names; a prefix of another; two pairs with equal Adler-32 sums; sums with the
	// top bit set; the longest possible names (equal except for the last character)
	for (int i = 0; i < 2; i++) { memset(longn[i], 'x', MPI_MAX_PROCESSOR_NAME - 1); longn[i][MPI_MAX_PROCESSOR_NAME - 2] = 'a' + i; longn[i][MPI_MAX_PROCESSOR_NAME - 1] = 0; }
	const char* l[] = {"node1", "node10", "aad1", "abb2", "r01c01s01n01.cluster.example.org.domain", "r01c01s01n02.cluster.example.org.domain", longn[0], longn[1], "n", "node2"};
	for (unsigned i = 0; i < sizeof l / sizeof *l; i++) names[nn++] = l[i];
}
void mc_setup()
{
	init();
	int set = mc_arg("set", 0), k = mc_arg("names", 3); (void)set;
	for (int r = 0; r < mc_size(); r++) { int c = set + mc_choose(k, "node"); mc_ghost_set(r, c); mc_hostname(r, names[c]); }
}
void mc_main()
{
	init();
	MPI_Comm comm = MPI_COMM_WORLD; int me = mc_rank(), n = mc_size();
	int sub = mc_arg("sub", 0); // 1: reversed order, 2: two halves
	if (sub == 1) MPI_Comm_split(MPI_COMM_WORLD, 0, n - me, &comm);
	if (sub == 2) MPI_Comm_split(MPI_COMM_WORLD, me % 2, me, &comm);
	int want = 0;
	for (int r = 0; r < n; r++) {
		bool before = sub == 1 ? r > me : r < me;
		if (sub == 2 && r % 2 != me % 2) continue;
		if (before && mc_ghost_get(r) == mc_ghost_get(me)) want++;
	}
	for (int i = 0; i < mc_arg("calls", 2); i++) {
		int got = asagi::Grid::nodeLocalRank(comm);
		MC_CHECK(got == want, "the node-local rank of rank %d is %d, expected %d", me, got, want);
	}
	mc_outcome("local rank %d", want);
	MC_CHECK(mc_live("comm") == (sub ? 1 : 0), "a communicator remains");
	if (sub) MPI_Comm_free(&comm);
}
