/* C08: threads::Sync — barriers, broadcasts and the single-thread section between
 * startBarrier() and waitBarrier(). Every interleaving of "threads" threads doing
 * "rounds" operations, including spurious wake-ups of condition variables. */
#include "common.h"
#include "threads/sync.h"
static threads::Sync* s;
static int T, rounds, kinds[8], roots[8];
/* ghost: 0..7 arrived in round r; 8..15 left; 16.. = values */
void mc_setup() { mc_cfg("spurious", mc_arg("spurious", 0)); }
static void run(int id, void*)
{
	for (int r = 0; r < rounds; r++) {
		switch (kinds[r]) {
		case 0: { // barrier
			mc_ghost_add(r, 1);
			MC_CHECK(s->barrier(T), "barrier fails");
			MC_CHECK(mc_ghost_get(r) == T, "thread %d leaves barrier %d when only %ld of %d threads entered it", id, r, mc_ghost_get(r), T);
			mc_ghost_add(8 + r, 1);
			break; }
		case 1: { // broadcast
			long v = 1000 * (id + 1) + r;
			mc_ghost_add(r, 1);
			MC_CHECK(s->broadcast(v, T, id, roots[r]), "broadcast fails");
			MC_CHECK(v == 1000 * (roots[r] + 1) + r, "broadcast %d from thread %d delivers %ld to thread %d", r, roots[r], v, id);
			MC_CHECK(mc_ghost_get(r) == T || id != roots[r], "the root of a broadcast leaves it before all threads entered");
			mc_ghost_add(8 + r, 1);
			break; }
		case 2: { // section for the first thread, as in Numa::registerThread
			MC_CHECK(s->startBarrier(), "startBarrier fails");
			MC_CHECK(r == 0 || mc_ghost_get(8 + r - 1) >= 0, "x");
			bool first = s->waiting() == 0;
			mc_use(1, 1); // mutual exclusion
			MC_CHECK((mc_ghost_get(r) == 0) == first, "waiting() is %u when %ld threads arrived", s->waiting(), mc_ghost_get(r));
			MC_CHECK((long)s->waiting() == mc_ghost_get(r), "waiting() is %u when %ld threads arrived", s->waiting(), mc_ghost_get(r));
			mc_ghost_add(r, 1);
			MC_CHECK(s->waitBarrier(T, id == roots[r]), "waitBarrier fails");
			MC_CHECK(mc_ghost_get(r) == T, "waitBarrier returns when only %ld of %d threads arrived", mc_ghost_get(r), T);
			if (id == roots[r]) MC_CHECK(mc_ghost_get(8 + r) == T - 1, "the last thread returns when only %ld of %d other threads did", mc_ghost_get(8 + r), T - 1);
			mc_ghost_add(8 + r, 1);
			mc_use(1, 1);
			MC_CHECK(s->endBarrier(), "endBarrier fails");
			break; }
		}
	}
}
void mc_main()
{
	T = mc_arg("threads", 2); rounds = mc_arg("rounds", 2);
	for (int r = 0; r < rounds; r++) { kinds[r] = mc_choose(3, "operation"); roots[r] = kinds[r] ? mc_choose(T, "root") : 0; }
	s = new threads::Sync;
	mc_parallel(T, run);
	for (int r = 0; r < rounds; r++) MC_CHECK(mc_ghost_get(8 + r) == T, "round %d incomplete", r);
	delete s;
}
