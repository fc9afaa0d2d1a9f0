/* mpi::Mutex: ranks and threads take and release distributed locks the way the caches
 * do. The holder increments a counter next to the lock with one-sided communication;
 * who holds a lock is kept in ghost state. */
#include "common.h"
#include "asagi.h"
#include <mpi.h>
#include "mpi/mpicomm.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "mpi/mutex.h"
static int nt, nl, rounds, pattern;
static mpi::Mutex* mxs[4]; static int nm_; /* several locks: of one Mutex object, or mutexes=1: each of its own (as the levels of a grid) */ static MPI_Win win; static long* words; static threads::Mutex* wm;
static numa::Numa* nm; static mpi::MPIComm* comm; static numa::NumaComm* nc;
static void lockWin(int r) { wm->lock(); MPI_Win_lock(MPI_LOCK_EXCLUSIVE, r, 0, win); }
static void unlockWin(int r) { MPI_Win_unlock(r, win); wm->unlock(); }
static void section(int l, int t)
{
	mpi::Mutex* mx = mxs[nm_ == 1 ? 0 : l];
	int home = l % mc_size(); unsigned long off = 2 * (l / mc_size());
	lockWin(home);
	long old = mx->acquire(home, off);
	unlockWin(home);
	mc_outcome(old < 0 ? "free lock" : "had to wait");
	mx->wait(old);
	MC_CHECK(mc_ghost_get(l) == 0, "lock %d is held by two threads", l);
	mc_ghost_set(l, 1 + mc_rank() * 4 + t);
	long v = -1;
	lockWin(home);
	MPI_Get(&v, 1, MPI_LONG, home, off + 1, 1, MPI_LONG, win);
	unlockWin(home);
	MC_CHECK(v == mc_ghost_get(8 + l), "the holder of lock %d reads %ld, the previous holder wrote %ld", l, v, mc_ghost_get(8 + l));
	v++; mc_ghost_set(8 + l, v);
	lockWin(home);
	MPI_Put(&v, 1, MPI_LONG, home, off + 1, 1, MPI_LONG, win);
	unlockWin(home);
	MC_CHECK(mc_ghost_get(l) == 1 + mc_rank() * 4 + t, "lock %d was taken away", l);
	mc_ghost_set(l, 0);
	lockWin(home);
	mx->release(home, off);
	unlockWin(home);
}
static void worker(int t, void*)
{
	bool m; nm->registerThread(m);
	if (nm->threadId() == 0) { // as a level is opened
		nc = nm->createComm();
		for (int i = 0; i < nm_; i++) mxs[i]->init(*comm, win, *nc);
		MPI_Barrier(comm->comm());
	}
	int x = 0; nm->broadcast(x);
	for (int i = 0; i < rounds; i++) {
		int l = nl == 1 ? 0 : pattern ? (t + mc_rank() + i) % nl : mc_choose(nl, "lock");
		section(l, t);
	}
}
void mc_setup() {}
void mc_main()
{
	nt = mc_arg("nt", 1); nl = mc_arg("locks", 1); rounds = mc_arg("rounds", 1); pattern = mc_arg("pattern", 0);
	nm = new numa::Numa(); nm->setThreads(nt);
	bool m; numa::Numa* one = new numa::Numa(); one->registerThread(m);
	comm = new mpi::MPIComm(); comm->init(MPI_COMM_WORLD);
	int mine = 0; for (int l = 0; l < nl; l++) if (l % mc_size() == mc_rank()) mine++;
	words = new long[2 * mine + 1];
	nm_ = mc_arg("mutexes", 0) ? nl : 1; for (int i = 0; i < nm_; i++) mxs[i] = new mpi::Mutex(); wm = new threads::Mutex();
	for (int i = 0; i < mine; i++) { mxs[0]->initMutexMem(words[2 * i]); words[2 * i + 1] = 0; }
	MPI_Win_create(words, 2 * mine * sizeof(long), sizeof(long), MPI_INFO_NULL, comm->comm(), &win);
	mc_parallel(nt, worker);
	MPI_Barrier(comm->comm());
	if (mc_rank() == 0) { long n = 0; for (int l = 0; l < nl; l++) n += mc_ghost_get(8 + l); MC_CHECK(n == (long)mc_size() * nt * rounds, "%ld critical sections were executed instead of %ld", n, (long)mc_size() * nt * rounds); }
	MPI_Win_free(&win);
	for (int i = 0; i < nm_; i++) delete mxs[i]; delete wm; delete nc; delete nm; delete one; delete comm; delete [] words;
}
