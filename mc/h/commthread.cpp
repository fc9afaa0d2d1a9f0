/* mpi::CommThread: start/stop cycles, receivers that are registered and unregistered
 * while others are in use, and messages between all ranks and threads. Messages are
 * acknowledged by the receiver (as all users of the class do) before the receiver goes
 * away; messages to the own rank may also be left unacknowledged. */
#include "common.h"
#include "asagi.h"
#include <mpi.h>
#include <string.h>
#include "mpi/commthread.h"
using mpi::CommThread;
static int nt, nr, msgs, rev, late, oneway, cycles;
static MPI_Comm comm[6]; static int members[6]; static bool groups;
/* groups=1: each receiver has its own set of ranks */
static bool member(int i, int r = mc_rank()) { return members[i] >> r & 1; }
static int rankIn(int i, int to) { if (rev) return mc_size() - 1 - to; int n = 0; for (int r = 0; r < to; r++) n += member(i, r); return n; }
static const int ACK = 100;
/* ghost words: 10 + rank * 8 + receiver: 1 while registered; 60 + id: how often message id was handled */
struct Rcv : mpi::Receiver
{
	int no;
	void recv(int sender, mpi::message_t d)
	{
		int id = d & 0xff, from = d >> 8 & 0xf, thread = d >> 12 & 0xf, to = d >> 16 & 0xf, rno = d >> 20 & 0xf, ack = d >> 24 & 1, fromComm = d >> 28 & 0xf;
		MC_CHECK(rno == no && to == mc_rank(), "a message for receiver %d of rank %d is given to receiver %d of rank %d", rno, to, no, mc_rank());
		MC_CHECK(sender == fromComm, "the message of rank %d is reported to come from rank %d", fromComm, sender);
		MC_CHECK(mc_ghost_get(10 + mc_rank() * 8 + no) == 1, "a message is delivered to receiver %d after it was unregistered", no);
		mc_ghost_add(60 + id, 1);
		MC_CHECK(mc_ghost_get(60 + id) == 1, "a message is handled twice");
		(void)from;
		if (ack) MPI_Send(&d, 1, mpi::MPI_MESSAGE, sender, ACK + thread, comm[no]);
	}
} static rcv[6];
static int tags[6];
static void reg(int i)
{
	if (!member(i)) return;
	rcv[i].no = i;
	mc_ghost_set(10 + mc_rank() * 8 + i, 1);
	asagi::Grid::Error e = CommThread::commThread.registerReceiver(comm[i], rcv[i], tags[i]);
	MC_CHECK(e == asagi::Grid::SUCCESS, "registerReceiver fails with %d", e);
	/* nobody may send before the receiver is known on all ranks (Level::syncError in open) */
	MPI_Barrier(comm[i]);
	for (int k = 0; k < i; k++) if (mc_ghost_get(10 + mc_rank() * 8 + k) == 1) MC_CHECK(tags[k] != tags[i], "two receivers share tag %d", tags[i]);
}
static void unreg(int i)
{
	if (!member(i)) return;
	CommThread::commThread.unregisterReceiver(tags[i]);
	mc_ghost_set(10 + mc_rank() * 8 + i, 2);
}
static void send(int i, int t, int to, int ack, int id)
{
	int r, cr; MPI_Comm_rank(comm[i], &r); cr = rankIn(i, to);
	mpi::message_t d = id | mc_rank() << 8 | t << 12 | to << 16 | i << 20 | ack << 24 | (unsigned)r << 28;
	d = (unsigned)d;
	CommThread::commThread.send(tags[i], cr, d);
	if (!ack) return;
	mpi::message_t a = 0;
	MPI_Recv(&a, 1, mpi::MPI_MESSAGE, cr, ACK + t, comm[i], MPI_STATUS_IGNORE);
	MC_CHECK(a == d, "wrong acknowledgement");
	MC_CHECK(mc_ghost_get(60 + id) == 1, "an acknowledged message was not handled");
}
static int idOf(int t, int k) { return 1 + (mc_rank() * 4 + t) * 4 + k; }
static void worker(int t, void*)
{
	if (groups) { // every receiver gets one message from each of its ranks
		for (int i = 0, k = 0; i < nr; i++) if (member(i)) { int to; do to = mc_arg("all", 0) ? mc_choose(mc_size(), "receiver rank") : (mc_rank() + 1 + i) % mc_size(); while (0); for (int n = 0; n < mc_size() && !member(i, to); n++) to = (to + 1) % mc_size(); send(i, t, to, 1, idOf(t, k++)); }
		return;
	}
	if (late && t == nt - 1) { reg(nr); send(nr, t, (mc_rank() + 1) % mc_size(), 1, idOf(t, 0)); MPI_Barrier(comm[nr]); unreg(nr); return; }
	for (int k = 0; k < msgs; k++) {
		int to = mc_choose(mc_size(), "receiver rank"), i = nr > 1 ? mc_choose(nr, "receiver") : 0;
		send(i, t, to, 1, idOf(t, k));
	}
}
static void cycle()
{
	asagi::Grid::Error e = CommThread::commThread.init(mc_arg("sched_cpu", -1), MPI_COMM_WORLD);
	MC_CHECK(e == asagi::Grid::SUCCESS, "starting the communication thread fails with %d", e);
	int cpu = mc_arg("sched_cpu", -1), n = mc_arg("ncpus", 4); if (cpu < 0) cpu += n;
	MC_CHECK(mc_ghost_get(255) == (cpu >= 0 && cpu < n ? cpu + 1 : 0), "the communication thread runs on CPU %ld instead of %d", mc_ghost_get(255) - 1, cpu);
	if (mc_arg("twice", 0)) { e = CommThread::commThread.init(-1, MPI_COMM_WORLD); MC_CHECK(e == asagi::Grid::ALREADY_INITIALIZED, "the second start returns %d", e); }
	for (int i = 0; i < nr; i++) reg(i);
	if (groups && mc_arg("again", 0)) { for (int i = 0; i < nr; i += 2) if (member(i)) { MPI_Barrier(comm[i]); unreg(i); } for (int i = 0; i < nr; i += 2) reg(i); }
	mc_parallel(nt, worker);
	if (oneway) { MPI_Barrier(comm[0]); send(0, 0, mc_rank(), 0, idOf(3, 3)); }
	for (int i = 0; i < nr; i++) {
		if (!oneway) { if (member(i)) MPI_Barrier(comm[i]); }
		else if (i == 0) { unreg(0); MC_CHECK(mc_ghost_get(60 + idOf(3, 3)) == 1, "a message sent before the receiver was unregistered got lost"); continue; }
		unreg(i);
	}
	CommThread::commThread.finialize();
	for (int k = 0; k < 16; k++) mc_ghost_set(60 + 1 + mc_rank() * 16 + k, 0);
}
void mc_setup() { if (mc_arg("groups", 0)) for (int i = 0; i < mc_arg("receivers", 1); i++) mc_ghost_set(100 + i, 1 + mc_choose((1 << mc_size()) - 1, "ranks of the receiver")); }
void mc_main()
{
	nt = mc_arg("nt", 1); nr = mc_arg("receivers", 1); msgs = mc_arg("msgs", 1); rev = mc_arg("reversed", 0); late = mc_arg("late", 0); oneway = mc_arg("oneway", 0); cycles = mc_arg("cycles", 1);
	groups = mc_arg("groups", 0);
	for (int i = 0; i < nr + late; i++) members[i] = groups ? mc_ghost_get(100 + i) : (1 << mc_size()) - 1;
	for (int i = 0; i < nr + late; i++) MPI_Comm_split(MPI_COMM_WORLD, member(i) ? 0 : MPI_UNDEFINED, rev ? -mc_rank() : mc_rank(), &comm[i]);
	for (int c = 0; c < cycles; c++) {
		cycle();
		static const char* kinds[] = {"group", "req", "msg"};
		for (int i = 0; i < 3; i++) MC_CHECK(mc_live(kinds[i]) == 0, "after stopping the communication thread %ld object(s) of kind %s remain", mc_live(kinds[i]), kinds[i]);
		if (c + 1 < cycles) MPI_Barrier(MPI_COMM_WORLD);
	}
	MPI_Barrier(MPI_COMM_WORLD);
	MC_CHECK(mc_warnings() == 0, "the library printed a warning");
	for (int i = 0; i < nr + late; i++) if (member(i)) MPI_Comm_free(&comm[i]);
}
