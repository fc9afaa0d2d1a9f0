/* Simulated MPI library: all ranks live in one process, each on its own fibers.
 * Point-to-point messages are pairwise ordered, MPI_ANY_SOURCE is a choice, Send
 * is eager or synchronous (cfg mpi_eager), RMA operations take effect as late as
 * MPI allows, misuse is a violation. */
#include "rt.h"
#include "mc.h"
#include "../include/mpi.h"
#include <algorithm>

bool lib_fault(const char* name);
static int me() { return cur ? cur->rank : 0; }
static const char* ERR = "MPI misuse";

/* -------------------------------------------------------------------- types */
struct Typ { std::vector<std::pair<long, long> > seg; long size, lb, extent; bool committed, live; int rank; long align = 1; };
static std::map<int, Typ> types;
static int seqno[MAXF + 1][6];
enum { H_TYPE = 1, H_GROUP, H_REQ, H_COMM, H_WIN };
static int newreq(); // handles of requests are reused, so that polling loops are finite
static int newid(int kind) { if (kind == H_REQ) return newreq(); int f = cur ? cur->id : MAXF; return (kind << 20) + (f << 12) + (++seqno[f][kind]); }
static long named(int t) {
	switch (t) {
	case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR: return 1;
	case MPI_SHORT: return 2;
	case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_UINT32_T: case MPI_INT32_T: return 4;
	case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_DOUBLE: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: case MPI_INT64_T: return 8;
	}
	return 0;
}
static Typ type_of(int t, bool comm, const char* what) {
	Typ r; long n = named(t);
	if (n) { r.seg.push_back(std::make_pair(0L, n)); r.size = r.extent = r.align = n; r.lb = 0; r.committed = r.live = true; return r; }
	auto i = types.find(t);
	if (i == types.end() || !i->second.live || i->second.rank != me()) violate(ERR, "%s with an invalid datatype", what);
	if (comm && !i->second.committed) violate(ERR, "%s with a datatype that is not committed", what);
	return i->second;
}
typedef std::vector<char> Buf;
static Buf pack_as(const void* p, long n, const Typ& y, const char* what, bool access) {
	Buf b;
	for (long i = 0; i < n; i++) for (auto& s : y.seg) {
		const char* q = (const char*)p + i * y.extent + s.first;
		if (access) check_range(q, s.second, false, what);
		b.insert(b.end(), q, q + s.second);
	}
	return b;
}
static Buf pack(const void* p, long n, int t, const char* what, bool access = true) { return pack_as(p, n, type_of(t, true, what), what, access); }
static void unpack(const Buf& b, void* p, long n, int t, const char* what) {
	Typ y = type_of(t, true, what); size_t o = 0;
	for (long i = 0; i < n; i++) for (auto& s : y.seg) {
		if (o >= b.size()) return;
		size_t k = std::min<size_t>(s.second, b.size() - o);
		char* q = (char*)p + i * y.extent + s.first;
		check_range(q, k, true, what); memcpy(q, b.data() + o, k); o += k;
	}
}
static long bytes(long n, int t, const char* what) { return n * type_of(t, true, what).size; }

/* ------------------------------------------------------------ communicators */
struct Coll { const char* op; u32 arrived, left; std::vector<Buf> in; std::vector<long> a, b; int root, rop, type; };
struct Comm { std::vector<int> mem; u32 freed; bool internal; u32 seq[MAXRANK]; bool busy[MAXRANK]; std::map<u32, Coll> coll; };
static std::map<int, Comm> comms;
struct Grp { std::vector<int> mem; int rank; };
static std::map<int, Grp> groups;
static std::map<int, std::string> hosts;
static std::map<std::string, long> counts[MAXRANK];
static void count_big(long n) { if (n >= cfgi("big", 1l << 40)) counts[me()]["big"]++; } // transfers of data, not of control information
static void count(const char* n, long k = 1) { if (cfgi("count_mpi", 0)) counts[me()][n] += k; }
static int cself(int c) { return c == MPI_COMM_SELF ? 100 + me() : c; } // every rank has its own
static Comm& comm_of(int c, const char* what) {
	c = cself(c);
	auto i = comms.find(c);
	if (i == comms.end()) violate(ERR, "%s on an invalid communicator", what);
	int m = std::find(i->second.mem.begin(), i->second.mem.end(), me()) - i->second.mem.begin();
	if (m == (int)i->second.mem.size()) violate(ERR, "%s on a communicator the rank is not part of", what);
	if (i->second.freed >> m & 1) violate(ERR, "%s on a communicator that was freed", what);
	return i->second;
}
static int idx(const Comm& c, int rank) { return std::find(c.mem.begin(), c.mem.end(), rank) - c.mem.begin(); }
static void enter(const char* what) {
	on_rt([&] {
		if (replaying_verbose && cfgi("trace_mpi", 1)) note("%s", what);
		if (!cfgi("mpi_multiple", 1)) pseudo_access(mkkey(40, me()), true, what);
	});
}
static bool en_coll(Fiber* f) {
	auto i = comms.find((int)f->pa[0]); if (i == comms.end()) return true;
	auto j = i->second.coll.find((u32)f->pa[1]); if (j == i->second.coll.end()) return true;
	return j->second.arrived == (1u << i->second.mem.size()) - 1;
}
/* All members call; fn(coll, my index) produces the result. */
template<class A, class F> static void collective(int c, const char* what, A arrive, F fn) {
	c = cself(c);
	enter(what);
	u32 seq = 0; int m = 0; bool one = false;
	on_rt([&] {
		Comm& x = comm_of(c, what); m = idx(x, me());
		if (x.busy[m]) violate(ERR, "%s while another thread is in a collective operation on the same communicator", what);
		x.busy[m] = true; seq = x.seq[m]++; one = x.mem.size() == 1;
		Coll& k = x.coll[seq];
		if (!k.arrived) { k.op = what; k.left = 0; k.in.resize(x.mem.size()); k.a.resize(x.mem.size()); k.b.resize(x.mem.size()); k.root = k.rop = k.type = -1; }
		else if (strcmp(k.op, what)) violate(ERR, "%s does not match %s called by other ranks", what, k.op);
		arrive(x, k, m);
		k.arrived |= 1u << m;
		touch(mkkey(41, c, seq), true); release_join(mkkey(41, c, seq));
	});
	if (!one) sched(what, en_coll, c, seq);
	on_rt([&] {
		Comm& x = comms[c]; Coll& k = x.coll[seq];
		touch(mkkey(41, c, seq), one); acquire(mkkey(41, c, seq));
		fn(x, k, m);
		x.busy[m] = false; k.left |= 1u << m;
		if (k.left == (1u << x.mem.size()) - 1) x.coll.erase(seq);
		if (!cfgi("mpi_multiple", 1)) pseudo_access(mkkey(40, me()), true, what);
	});
}
static void make_comm(int h, const std::vector<int>& mem) {
	if (comms.count(h)) return;
	Comm n; n.mem = mem; n.freed = 0; n.internal = false; memset(n.seq, 0, sizeof n.seq); memset(n.busy, 0, sizeof n.busy); comms[h] = n;
}
static int commid(int parent, u32 seq, int color) { return (H_COMM << 20) + (int)(mkkey(50, parent, seq, color) & 0xFFFFF); }

/* ---------------------------------------------------------------- messages */
struct Msg { int tag; Buf data; const void* ptr; long n; Typ type; bool sync, matched, captured; VC vc, rvc; u32 id; };
static long msgbytes(const Msg& m) { return m.captured ? (long)m.data.size() : m.n * m.type.size; }
struct Chan { std::deque<Msg> q; std::map<u32, VC> done; };
typedef std::pair<int, std::pair<int, int> > ChanId; // comm, src, dst (ranks in the communicator)
static std::map<ChanId, Chan> chans;
static ChanId cid(int c, int s, int d) { return ChanId(c, std::make_pair(s, d)); }
static u64 ckey(int c, int s, int d) { return mkkey(42, c, s, d); }
struct Req { bool send; int comm, src, dst, tag; u32 id; int rank; void* buf; long n; int type; };
static std::map<int, Req> reqs;
static int newreq() { int b = (H_REQ << 20) + ((cur ? cur->id : MAXF) << 12) + 1; while (reqs.count(b)) b++; return b; }
static u32 msgid(int c, int s, int d, Chan& h) { // smallest number not in use
	for (u32 i = 0; ; i++) {
		bool used = h.done.count(i) > 0;
		for (auto& m : h.q) used |= m.id == i;
		for (auto& r : reqs) used |= r.second.send && r.second.comm == c && r.second.src == s && r.second.dst == d && r.second.id == i;
		if (!used) return i;
	}
}
static void capture(Msg& m, const char* what) {
	if (m.captured) return;
	m.data = pack_as(m.ptr, m.n, m.type, what, true); m.captured = true;
}
/* first message of the channel that matches, -1 if none */
static int match(int c, int s, int d, int tag) {
	auto i = chans.find(cid(c, s, d)); if (i == chans.end()) return -1;
	for (size_t k = 0; k < i->second.q.size(); k++) if (tag == MPI_ANY_TAG || i->second.q[k].tag == tag) return k;
	return -1;
}
static u32 sources(int c, int n, int s, int d, int tag) {
	u32 m = 0;
	for (int i = 0; i < n; i++) if ((s == MPI_ANY_SOURCE || s == i) && match(c, i, d, tag) >= 0) m |= 1u << i;
	return m;
}
static bool en_recv(Fiber* f) { auto i = comms.find((int)f->pa[0]); return i == comms.end() || sources((int)f->pa[0], i->second.mem.size(), (int)f->pa[1], idx(i->second, f->rank), (int)f->pa[2]); }
static bool is_done(int c, int s, int d, u32 id) {
	auto i = chans.find(cid(c, s, d)); if (i == chans.end()) return true;
	return i->second.done.count(id);
}
static bool en_sent(Fiber* f) { return is_done((int)f->pa[0], (int)(f->pa[1] >> 8), (int)(f->pa[1] & 255), (u32)f->pa[2]); }
static u32 post(int c, const void* b, long n, int t, int dst, int tag, bool sync, bool cap, const char* what, int& src) {
	c = cself(c);
	u32 id = 0;
	enter(what);
	bool pt = false;
	on_rt([&] {
		Comm& x = comm_of(c, what); src = idx(x, me());
		if (dst < 0 || dst >= (int)x.mem.size()) violate(ERR, "%s to an invalid rank %d", what, dst);
		if (tag < 0) violate(ERR, "%s with an invalid tag %d", what, tag);
		type_of(t, true, what);
		discover(ckey(c, src, dst)); pt = key_shared(ckey(c, src, dst)) || src != dst;
	});
	if (pt) sched(what, 0, c, dst, tag);
	on_rt([&] {
		Chan& h = chans[cid(c, src, dst)];
		touch(ckey(c, src, dst), true);
		Msg m; m.tag = tag; m.ptr = b; m.n = n; m.type = type_of(t, true, what); m.sync = sync; m.matched = m.captured = false; m.vc = cur->vc; m.id = id = msgid(c, src, dst, h);
		if (cap) capture(m, what);
		else for (long i = 0; i < n; i++) {} 
		h.q.push_back(m); tick();
		count("sends"); count("sent_bytes", bytes(n, t, what));
	});
	return id;
}
static void wait_sent(int c, int s, int d, u32 id, const char* what) {
	c = cself(c);
	sched(what, en_sent, c, (s << 8) | d, id);
	on_rt([&] {
		touch(ckey(c, s, d), false);
		Chan& h = chans[cid(c, s, d)]; cur->vc.join(h.done[id]); h.done.erase(id);
		if (!cfgi("mpi_multiple", 1)) pseudo_access(mkkey(40, me()), true, what);
	});
}
static int pick_source(int c, int n, int s, int d, int tag, const char* what) {
	u32 m = 0; on_rt([&] { m = sources(c, n, s, d, tag); });
	if (!m) return -1;
	int k = __builtin_popcount(m), w = k > 1 ? choose(k, what) : 0;
	for (int i = 0; ; i++) if (m >> i & 1) { if (!w--) return i; }
}
static void touch_recv(int c, int n, int s, int d, bool w) { for (int i = 0; i < n; i++) if (s == MPI_ANY_SOURCE || s == i) touch(ckey(c, i, d), w); }
static void set_status(MPI_Status* st, int src, int tag, long n) {
	if (!st) return;
	check_range(st, sizeof *st, true, "MPI_Status"); st->MPI_SOURCE = src; st->MPI_TAG = tag; st->MPI_ERROR = 0; st->mc_bytes = n;
}
static void deliver(int c, int s, int d, int tag, void* b, long n, int t, MPI_Status* st, const char* what) {
	Chan& h = chans[cid(c, s, d)]; int k = match(c, s, d, tag);
	Msg m = h.q[k]; h.q.erase(h.q.begin() + k);
	cur->vc.join(m.vc);
	bool late = !m.captured && !m.sync; // read from the buffer of a pending MPI_Isend
	capture(m, what);
	if ((long)m.data.size() > bytes(n, t, what)) violate(ERR, "%s: message of %zu bytes truncated to %ld", what, m.data.size(), bytes(n, t, what));
	unpack(m.data, b, n, t, what); count_big(m.data.size());
	if (m.sync || late) { h.done[m.id] = cur->vc; tick(); }
	set_status(st, s, m.tag, m.data.size());
	note("%s: message from %d, tag %d, %zu bytes", what, s, m.tag, m.data.size());
}

/* ------------------------------------------------------------------ windows */
struct RmaOp { int kind; void* o; long on; int ot; long disp; long tn; int tt; int op; Buf cap; bool captured; }; // kind: 0 get, 1 put, 2 fetch_and_op, 3 cas, 4 accumulate
struct Epoch { int type; std::vector<RmaOp> ops; };
struct Win { int comm; std::vector<int> mem; std::vector<char*> base; std::vector<long> size; std::vector<int> unit; u32 freed; std::map<std::pair<int, int>, Epoch> ep; /* origin, target */ std::vector<int> excl; std::vector<int> nshared; };
static std::map<int, Win> wins;
static u64 wkey(int w, int t) { return mkkey(44, w, t); }
static Win& win_of(int w, const char* what) {
	auto i = wins.find(w);
	if (i == wins.end()) violate(ERR, "%s on an invalid window", what);
	int m = std::find(i->second.mem.begin(), i->second.mem.end(), me()) - i->second.mem.begin();
	if (m == (int)i->second.mem.size() || (i->second.freed >> m & 1)) violate(ERR, "%s on an invalid window", what);
	return i->second;
}
static int widx(const Win& w, int rank) { return std::find(w.mem.begin(), w.mem.end(), rank) - w.mem.begin(); }
static bool en_wlock(Fiber* f) {
	auto i = wins.find((int)f->pa[0]); if (i == wins.end()) return true;
	int t = (int)f->pa[1];
	if (f->pa[2] == MPI_LOCK_EXCLUSIVE) return i->second.excl[t] < 0 && !i->second.nshared[t];
	return i->second.excl[t] < 0;
}
static Epoch& epoch_of(int w, int t, const char* what) {
	Win& x = win_of(w, what);
	if (t < 0 || t >= (int)x.mem.size()) violate(ERR, "%s with an invalid target %d", what, t);
	auto e = x.ep.find(std::make_pair(widx(x, me()), t));
	if (e == x.ep.end()) violate(ERR, "%s outside of an access epoch (target %d)", what, t);
	return e->second;
}
static char* taddr(Win& x, int t, long disp) { return x.base[t] + disp * x.unit[t]; }
static void spans(const RmaOp& o, Win& x, int t, std::vector<std::pair<long, long> >& r) {
	Typ y = type_of(o.tt, true, "RMA");
	for (long i = 0; i < o.tn; i++) for (auto& s : y.seg) { long b = o.disp * x.unit[t] + i * y.extent + s.first; r.push_back(std::make_pair(b, b + s.second)); }
}
static void rma(int kind, const void* o, long on, int ot, int t, long disp, long tn, int tt, int op, int w, const char* what, const Buf& cap = Buf()) {
	enter(what);
	on_rt([&] {
		Epoch& e = epoch_of(w, t, what); Win& x = wins[w];
		RmaOp r; r.kind = kind; r.o = (void*)o; r.on = on; r.ot = ot; r.disp = disp; r.tn = tn; r.tt = tt; r.op = op; r.captured = kind >= 2; r.cap = cap;
		if (bytes(on, ot, what) != bytes(tn, tt, what)) violate(ERR, "%s: origin and target sizes differ (%ld, %ld)", what, bytes(on, ot, what), bytes(tn, tt, what));
		std::vector<std::pair<long, long> > a; spans(r, x, t, a);
		for (auto& s : a) if (s.first < 0 || s.second > x.size[t]) violate(ERR, "%s accesses bytes %ld..%ld of a window of %ld bytes", what, s.first, s.second, x.size[t]);
		for (auto& q : e.ops) {
			if ((q.kind == 0 && kind == 0) || (q.kind >= 2 && kind >= 2)) continue;
			std::vector<std::pair<long, long> > b; spans(q, x, t, b);
			for (auto& s : a) for (auto& z : b) if (s.first < z.second && z.first < s.second) violate(ERR, "%s conflicts with another operation of the same epoch", what);
		}
		if (kind == 0 || kind == 2 || kind == 3) { // the result is undefined until the operation completes
			Typ y = type_of(ot, true, what);
			for (long i = 0; i < on; i++) for (auto& s : y.seg) { char* q = (char*)o + i * y.extent + s.first; check_range(q, s.second, true, what); memset(q, 0xA5, s.second); }
		}
		e.ops.push_back(r);
		count(kind == 0 ? "gets" : kind == 1 ? "puts" : "atomics"); count("rma_bytes", bytes(on, ot, what)); if (kind == 0) count_big(bytes(on, ot, what));
	});
}
template<class T> static T bits(T a, T b, int op) { return op == MPI_BOR ? a | b : a & b; }
static float bits(float, float, int) { violate(ERR, "reduction operation not supported"); return 0; }
static double bits(double, double, int) { violate(ERR, "reduction operation not supported"); return 0; }
static void reduce(char* d, const char* s, long n, int t, int op) {
	if (op == MPI_REPLACE) { memcpy(d, s, n * named(t)); return; }
	if (op == MPI_NO_OP) return;
	for (long i = 0; i < n; i++) {
#define RED(T) { T a, b; memcpy(&a, d + i * sizeof(T), sizeof(T)); memcpy(&b, s + i * sizeof(T), sizeof(T)); \
		switch (op) { case MPI_SUM: a = a + b; break; case MPI_MAX: a = a > b ? a : b; break; case MPI_MIN: a = a < b ? a : b; break; case MPI_LOR: a = a || b; break; case MPI_LAND: a = a && b; break; case MPI_BOR: case MPI_BAND: a = bits(a, b, op); break; default: violate(ERR, "reduction operation not supported"); } \
		memcpy(d + i * sizeof(T), &a, sizeof(T)); } break;
		switch (t) {
		case MPI_BYTE: case MPI_UNSIGNED_CHAR: RED(unsigned char)
		case MPI_CHAR: RED(char)
		case MPI_SHORT: RED(short)
		case MPI_INT: case MPI_INT32_T: RED(int)
		case MPI_UNSIGNED: case MPI_UINT32_T: RED(unsigned)
		case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: RED(long)
		case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: RED(unsigned long)
		case MPI_FLOAT: RED(float)
		case MPI_DOUBLE: RED(double)
		default: violate(ERR, "reduction on an unsupported type");
		}
	}
}
static bool has_atomics(int w, int t) {
	auto i = wins.find(w); if (i == wins.end()) return false;
	auto e = i->second.ep.find(std::make_pair(widx(i->second, me()), t)); if (e == i->second.ep.end()) return false;
	for (auto& o : e->second.ops) if (o.kind >= 1) return true;
	return false;
}
static void complete_ops(int w, int t, bool local, const char* what) {
	Epoch& e = epoch_of(w, t, what); Win& x = wins[w];
	if (local) {
		for (auto& o : e.ops) if (o.kind == 1 && !o.captured) { o.cap = pack(o.o, o.on, o.ot, what); o.captured = true; }
		std::vector<RmaOp> rest;
		for (auto& o : e.ops) if (o.kind == 1 || o.kind == 4) rest.push_back(o);
		std::vector<RmaOp> now; for (auto& o : e.ops) if (o.kind != 1 && o.kind != 4) now.push_back(o);
		std::swap(e.ops, now);
		complete_ops(w, t, false, what);
		epoch_of(w, t, what).ops = rest;
		return;
	}
	std::vector<RmaOp> ops; std::swap(ops, e.ops);
	for (auto& o : ops) {
		char* a = taddr(x, t, o.disp);
		if (o.kind == 0) { Buf b = pack(a, o.tn, o.tt, what); unpack(b, o.o, o.on, o.ot, what); }
		else if (o.kind == 1) { Buf b = o.captured ? o.cap : pack(o.o, o.on, o.ot, what); unpack(b, a, o.tn, o.tt, what); }
		else {
			u64 lk = mkkey(45, (u64)a);
			touch(lk, true); acquire(lk);
			long n = named(o.tt); char old[8]; check_range(a, n, false, what); memcpy(old, a, n);
			if (o.kind == 2 || o.kind == 4) { Buf z(a, a + n); reduce(z.data(), o.cap.data(), 1, o.tt, o.op); if (o.op != MPI_NO_OP) { check_range(a, n, true, what); memcpy(a, z.data(), n); } }
			else if (!memcmp(old, o.cap.data(), n)) { check_range(a, n, true, what); memcpy(a, o.cap.data() + n, n); }
			if (o.o) { check_range(o.o, n, true, what); memcpy(o.o, old, n); }
			release_join(lk);
		}
	}
}
static void flush(int w, int t, bool local, const char* what) {
	enter(what);
	bool at = false; on_rt([&] { epoch_of(w, t, what); at = has_atomics(w, t); });
	if (at) sched(what, 0, w, t);
	on_rt([&] { if (at) touch(mkkey(46, w, t), true); complete_ops(w, t, local, what); });
}
static void wlock(int type, int t, int w, const char* what) {
	enter(what);
	bool pt = false;
	on_rt([&] {
		Win& x = win_of(w, what); int m = widx(x, me());
		if (t < 0 || t >= (int)x.mem.size()) violate(ERR, "%s of an invalid rank %d", what, t);
		if (x.ep.count(std::make_pair(m, t))) violate(ERR, "%s of rank %d while this rank already holds a lock on it (overlapping epochs)", what, t);
		discover(wkey(w, t)); 
		pt = key_shared(wkey(w, t)) || x.excl[t] >= 0 || x.nshared[t];
	});
	if (pt) sched(what, en_wlock, w, t, type);
	on_rt([&] {
		Win& x = win_of(w, what); int m = widx(x, me());
		if (x.ep.count(std::make_pair(m, t))) violate(ERR, "%s of rank %d while this rank already holds a lock on it (overlapping epochs)", what, t);
		touch(wkey(w, t), true);
		if (type == MPI_LOCK_EXCLUSIVE) { x.excl[t] = m; acquire(wkey(w, t)); acquire(mkkey(47, w, t)); } else { x.nshared[t]++; acquire(wkey(w, t)); }
		Epoch e; e.type = type; x.ep[std::make_pair(m, t)] = e;
		count("locks"); if (m != t) count("remote_locks");
		if (!cfgi("mpi_multiple", 1)) pseudo_access(mkkey(40, me()), true, what);
	});
}
static void wunlock(int t, int w, const char* what) {
	enter(what);
	bool at = false; on_rt([&] { Epoch& e = epoch_of(w, t, what); at = e.type == MPI_LOCK_SHARED && has_atomics(w, t); });
	if (at) sched(what, 0, w, t);
	on_rt([&] {
		if (at) touch(mkkey(46, w, t), true);
		complete_ops(w, t, false, what);
		Win& x = wins[w]; int m = widx(x, me());
		bool ex = x.ep[std::make_pair(m, t)].type == MPI_LOCK_EXCLUSIVE;
		x.ep.erase(std::make_pair(m, t));
		touch(wkey(w, t), true);
		if (ex) { x.excl[t] = -1; release_join(wkey(w, t)); } else { x.nshared[t]--; release_join(mkkey(47, w, t)); }
	});
}

/* ---------------------------------------------------------------------- API */
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int, int* p) { on_rt([&] { check_range(p, 4, true, "MPI_Init_thread"); *p = cfgi("mpi_multiple", 1) ? MPI_THREAD_MULTIPLE : MPI_THREAD_SERIALIZED; }); return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Query_thread(int* p) { *p = cfgi("mpi_multiple", 1) ? MPI_THREAD_MULTIPLE : MPI_THREAD_SERIALIZED; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int) { on_rt([&] { violate("crash", "MPI_Abort"); }); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { enter("MPI_Comm_rank"); on_rt([&] { Comm& x = comm_of(c, "MPI_Comm_rank"); check_range(r, 4, true, "MPI_Comm_rank"); *r = idx(x, me()); }); return 0; }
int MPI_Comm_size(MPI_Comm c, int* r) { enter("MPI_Comm_size"); on_rt([&] { Comm& x = comm_of(c, "MPI_Comm_size"); check_range(r, 4, true, "MPI_Comm_size"); *r = x.mem.size(); }); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
	c = cself(c);
	bool fault = lib_fault("MPI_Comm_dup");
	collective(c, "MPI_Comm_dup", [&](Comm&, Coll&, int) {}, [&](Comm& x, Coll&, int m) {
		if (fault) return;
		int h = commid(c, x.seq[m] - 1, 0); std::vector<int> mem = x.mem; make_comm(h, mem); check_range(n, 4, true, "MPI_Comm_dup"); *n = h;
	});
	return fault ? MPI_ERR_OTHER : 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) {
	c = cself(c);
	bool fault = lib_fault("MPI_Comm_split");
	collective(c, "MPI_Comm_split", [&](Comm&, Coll& k, int m) {
		if (color < 0 && color != MPI_UNDEFINED) violate(ERR, "MPI_Comm_split with a negative color %d", color);
		k.a[m] = color; k.b[m] = key;
	}, [&](Comm& x, Coll& k, int m) {
		if (fault) return;
		check_range(n, 4, true, "MPI_Comm_split");
		if (color == MPI_UNDEFINED) { *n = MPI_COMM_NULL; return; }
		std::vector<std::pair<long, int> > o; for (size_t i = 0; i < x.mem.size(); i++) if (k.a[i] == color) o.push_back(std::make_pair(k.b[i], (int)i));
		std::sort(o.begin(), o.end());
		std::vector<int> mem; for (auto& p : o) mem.push_back(x.mem[p.second]);
		int h = commid(c, x.seq[m] - 1, color + 1); make_comm(h, mem); *n = h;
	});
	return fault ? MPI_ERR_OTHER : 0;
}
int MPI_Comm_free(MPI_Comm* c) {
	int h = *c;
	if (h == MPI_COMM_WORLD || h == MPI_COMM_SELF) on_rt([&] { violate(ERR, "MPI_Comm_free of a predefined communicator"); });
	collective(h, "MPI_Comm_free", [&](Comm&, Coll&, int) {}, [&](Comm& x, Coll&, int m) { x.freed |= 1u << m; });
	*c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) {
	enter("MPI_Comm_group");
	if (lib_fault("MPI_Comm_group")) return MPI_ERR_OTHER;
	on_rt([&] { Comm& x = comm_of(c, "MPI_Comm_group"); Grp n; n.mem = x.mem; n.rank = me(); int h = newid(H_GROUP); groups[h] = n; check_range(g, 4, true, "MPI_Comm_group"); *g = h; });
	return 0;
}
static Grp& group_of(int g, const char* what) { auto i = groups.find(g); if (i == groups.end() || i->second.rank != me()) violate(ERR, "%s with an invalid group", what); return i->second; }
int MPI_Group_free(MPI_Group* g) { enter("MPI_Group_free"); on_rt([&] { group_of(*g, "MPI_Group_free"); groups.erase(*g); *g = MPI_GROUP_NULL; }); return 0; }
int MPI_Group_size(MPI_Group g, int* n) { enter("MPI_Group_size"); on_rt([&] { *n = group_of(g, "MPI_Group_size").mem.size(); }); return 0; }
int MPI_Group_rank(MPI_Group g, int* n) { enter("MPI_Group_rank"); on_rt([&] { Grp& x = group_of(g, "MPI_Group_rank"); *n = MPI_UNDEFINED; for (size_t i = 0; i < x.mem.size(); i++) if (x.mem[i] == me()) *n = i; }); return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* o) {
	enter("MPI_Group_translate_ranks");
	on_rt([&] {
		Grp& x = group_of(a, "MPI_Group_translate_ranks"); Grp& y = group_of(b, "MPI_Group_translate_ranks");
		for (int i = 0; i < n; i++) {
			check_range(r + i, 4, false, "MPI_Group_translate_ranks"); check_range(o + i, 4, true, "MPI_Group_translate_ranks");
			if (r[i] == MPI_PROC_NULL) { o[i] = MPI_PROC_NULL; continue; }
			if (r[i] < 0 || r[i] >= (int)x.mem.size()) violate(ERR, "MPI_Group_translate_ranks with an invalid rank %d", r[i]);
			o[i] = MPI_UNDEFINED; for (size_t k = 0; k < y.mem.size(); k++) if (y.mem[k] == x.mem[r[i]]) o[i] = k;
		}
	});
	return 0;
}
int MPI_Barrier(MPI_Comm c) { collective(c, "MPI_Barrier", [](Comm&, Coll&, int) {}, [](Comm&, Coll&, int) {}); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
	collective(c, "MPI_Bcast", [&](Comm&, Coll& k, int m) { if (k.root >= 0 && k.root != root) violate(ERR, "MPI_Bcast with different roots"); k.root = root; if (m == root) k.in[m] = pack(b, n, t, "MPI_Bcast"); },
		[&](Comm&, Coll& k, int m) { if (m != root) { if ((long)k.in[root].size() != bytes(n, t, "MPI_Bcast")) violate(ERR, "MPI_Bcast with different sizes"); unpack(k.in[root], b, n, t, "MPI_Bcast"); } });
	return 0;
}
static void red_result(Coll& k, Comm& x, void* out, int n, int t, int op, const char* what) {
	Buf r = k.in[0];
	for (size_t i = 1; i < x.mem.size(); i++) { if (k.in[i].size() != r.size()) violate(ERR, "%s with different sizes", what); reduce(r.data(), k.in[i].data(), n, t, op); }
	unpack(r, out, n, t, what);
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
	collective(c, "MPI_Allreduce", [&](Comm&, Coll& k, int m) { if (k.rop >= 0 && k.rop != op) violate(ERR, "MPI_Allreduce with different operations"); k.rop = op; k.in[m] = pack(in == MPI_IN_PLACE ? out : in, n, t, "MPI_Allreduce"); },
		[&](Comm& x, Coll& k, int) { red_result(k, x, out, n, t, op, "MPI_Allreduce"); });
	return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
	collective(c, "MPI_Reduce", [&](Comm&, Coll& k, int m) { k.in[m] = pack(in == MPI_IN_PLACE ? out : in, n, t, "MPI_Reduce"); },
		[&](Comm& x, Coll& k, int m) { if (m == root) red_result(k, x, out, n, t, op, "MPI_Reduce"); });
	return 0;
}
static void gather(const void* in, int n, int t, void* out, int rn, int rt, int root, int c, const char* what) {
	collective(c, what, [&](Comm&, Coll& k, int m) { if (in == MPI_IN_PLACE) { Typ y = type_of(rt, true, what); k.in[m] = pack((char*)out + m * rn * y.extent, rn, rt, what); } else k.in[m] = pack(in, n, t, what); },
		[&](Comm& x, Coll& k, int m) {
			if (root >= 0 && m != root) return;
			Typ y = type_of(rt, true, what);
			for (size_t i = 0; i < x.mem.size(); i++) {
				if ((long)k.in[i].size() != rn * y.size) violate(ERR, "%s with different sizes", what);
				if (in == MPI_IN_PLACE && (int)i == m) continue;
				unpack(k.in[i], (char*)out + i * rn * y.extent, rn, rt, what);
			}
		});
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm c) { gather(in, n, t, out, rn, rt, -1, c, "MPI_Allgather"); return 0; }
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm c) { gather(in, n, t, out, rn, rt, root, c, "MPI_Gather"); return 0; }

int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	if (d == MPI_PROC_NULL) return 0;
	bool eager = false; on_rt([&] { eager = cfgi("mpi_eager", 1); });
	int s; u32 id = post(c, b, n, t, d, tag, !eager, eager, "MPI_Send", s);
	if (!eager) wait_sent(c, s, d, id, "MPI_Send (wait)");
	return 0;
}
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { int s; post(c, b, n, t, d, tag, false, true, "MPI_Bsend", s); return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	if (d == MPI_PROC_NULL) return 0;
	int s; u32 id = post(c, b, n, t, d, tag, true, false, "MPI_Ssend", s); wait_sent(c, s, d, id, "MPI_Ssend (wait)"); return 0;
}
static int isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r, bool sync, const char* what) {
	c = cself(c);
	int s; u32 id = post(c, b, n, t, d, tag, sync, false, what, s);
	on_rt([&] { Req q; q.send = true; q.comm = c; q.src = s; q.dst = d; q.tag = tag; q.id = id; q.rank = me(); q.buf = 0; q.n = 0; q.type = sync; int h = newid(H_REQ); reqs[h] = q; check_range(r, 4, true, what); *r = h; });
	return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { bool eager = false; on_rt([&] { eager = cfgi("mpi_eager", 1); }); return isend(b, n, t, d, tag, c, r, !eager, "MPI_Isend"); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return isend(b, n, t, d, tag, c, r, true, "MPI_Issend"); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
	c = cself(c);
	enter("MPI_Irecv");
	on_rt([&] { Comm& x = comm_of(c, "MPI_Irecv"); Req q; q.send = false; q.comm = c; q.src = s; q.dst = idx(x, me()); q.tag = tag; q.id = 0; q.rank = me(); q.buf = b; q.n = n; q.type = t; int h = newid(H_REQ); reqs[h] = q; check_range(r, 4, true, "MPI_Irecv"); *r = h; });
	return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
	c = cself(c);
	enter("MPI_Recv");
	int d = 0, sz = 0;
	on_rt([&] { Comm& x = comm_of(c, "MPI_Recv"); d = idx(x, me()); sz = x.mem.size(); if (s != MPI_ANY_SOURCE && (s < 0 || s >= sz)) violate(ERR, "MPI_Recv from an invalid rank %d", s); type_of(t, true, "MPI_Recv"); touch_recv(c, sz, s, d, false); });
	sched("MPI_Recv", en_recv, c, (u64)(long)s, (u64)(long)tag);
	on_rt([&] { touch_recv(c, sz, s, d, true); });
	int k = pick_source(c, sz, s, d, tag, "source of the received message");
	on_rt([&] { deliver(c, k, d, tag, b, n, t, st, "MPI_Recv"); count("recvs"); if (!cfgi("mpi_multiple", 1)) pseudo_access(mkkey(40, me()), true, "MPI_Recv"); });
	return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* x) {
	int m; post(c, sb, sn, st, d, stag, false, true, "MPI_Sendrecv", m);
	return MPI_Recv(rb, rn, rt, s, rtag, c, x);
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
	c = cself(c);
	enter("MPI_Iprobe");
	int d = 0, sz = 0;
	on_rt([&] { Comm& x = comm_of(c, "MPI_Iprobe"); d = idx(x, me()); sz = x.mem.size(); if (s != MPI_ANY_SOURCE && (s < 0 || s >= sz)) violate(ERR, "MPI_Iprobe of an invalid rank %d", s); });
	sched("MPI_Iprobe", 0, c, (u64)(long)s, (u64)(long)tag);
	on_rt([&] { touch_recv(c, sz, s, d, false); });
	int k = pick_source(c, sz, s, d, tag, "source of the probed message");
	on_rt([&] {
		check_range(flag, 4, true, "MPI_Iprobe"); *flag = k >= 0;
		if (k >= 0) { Msg& m = chans[cid(c, k, d)].q[match(c, k, d, tag)]; set_status(st, k, m.tag, msgbytes(m)); }
	});
	return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) {
	c = cself(c);
	enter("MPI_Probe");
	int d = 0, sz = 0;
	on_rt([&] { Comm& x = comm_of(c, "MPI_Probe"); d = idx(x, me()); sz = x.mem.size(); });
	sched("MPI_Probe", en_recv, c, (u64)(long)s, (u64)(long)tag);
	on_rt([&] { touch_recv(c, sz, s, d, false); });
	int k = pick_source(c, sz, s, d, tag, "source of the probed message");
	on_rt([&] { Msg& m = chans[cid(c, k, d)].q[match(c, k, d, tag)]; set_status(st, k, m.tag, msgbytes(m)); });
	return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { on_rt([&] { *n = st->mc_bytes / type_of(t, false, "MPI_Get_count").size; }); return 0; }
static bool en_req(Fiber* f) {
	auto i = reqs.find((int)f->pa[0]); if (i == reqs.end()) return true;
	Req& q = i->second;
	if (q.send) return !q.type || is_done(q.comm, q.src, q.dst, q.id);
	auto c = comms.find(q.comm); return c == comms.end() || sources(q.comm, c->second.mem.size(), q.src, q.dst, q.tag);
}
static Req& req_of(int h, const char* what) { auto i = reqs.find(h); if (i == reqs.end() || i->second.rank != me()) violate(ERR, "%s of an invalid request", what); return i->second; }
static void finish(MPI_Request* r, MPI_Status* st, const char* what) {
	Req q; int sz = 0;
	on_rt([&] { q = reqs[*r]; sz = comms[q.comm].mem.size(); });
	if (q.send) on_rt([&] {
		touch(ckey(q.comm, q.src, q.dst), true);
		Chan& h = chans[cid(q.comm, q.src, q.dst)];
		if (q.type) { cur->vc.join(h.done[q.id]); h.done.erase(q.id); }
		else if (h.done.count(q.id)) { cur->vc.join(h.done[q.id]); h.done.erase(q.id); }
		else for (auto& m : h.q) if (m.id == q.id) capture(m, what); // an eager message leaves the buffer now
	});
	else {
		on_rt([&] { touch_recv(q.comm, sz, q.src, q.dst, true); });
		int k = pick_source(q.comm, sz, q.src, q.dst, q.tag, "source of the received message");
		on_rt([&] { deliver(q.comm, k, q.dst, q.tag, q.buf, q.n, q.type, st, what); });
	}
	on_rt([&] { reqs.erase(*r); check_range(r, 4, true, what); *r = MPI_REQUEST_NULL; });
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
	enter("MPI_Test");
	if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; }
	on_rt([&] { req_of(*r, "MPI_Test"); });
	sched("MPI_Test", 0, *r);
	bool done = false;
	on_rt([&] {
		Req& q = req_of(*r, "MPI_Test");
		if (q.send) touch(ckey(q.comm, q.src, q.dst), false); else touch_recv(q.comm, comms[q.comm].mem.size(), q.src, q.dst, false);
		Fiber f; f.pa[0] = *r; f.rank = me(); done = en_req(&f);
		check_range(flag, 4, true, "MPI_Test"); *flag = done;
	});
	if (done) finish(r, st, "MPI_Test");
	return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
	enter("MPI_Wait");
	if (*r == MPI_REQUEST_NULL) return 0;
	on_rt([&] { req_of(*r, "MPI_Wait"); });
	sched("MPI_Wait", en_req, *r);
	finish(r, st, "MPI_Wait");
	return 0;
}

/* types */
static int newtype(const Typ& y) { Typ t = y; t.live = true; t.committed = false; t.rank = me(); int h = newid(H_TYPE); types[h] = t; return h; }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* r) {
	enter("MPI_Type_contiguous");
	if (lib_fault("MPI_Type_contiguous")) return MPI_ERR_OTHER;
	on_rt([&] {
		Typ b = type_of(o, false, "MPI_Type_contiguous"), y; if (n < 0) violate(ERR, "MPI_Type_contiguous with %d elements", n);
		y.lb = b.lb; y.align = b.align; y.extent = n * b.extent; y.size = n * b.size;
		for (int i = 0; i < n; i++) for (auto& s : b.seg) { long off = i * b.extent + s.first; if (!y.seg.empty() && y.seg.back().first + y.seg.back().second == off) y.seg.back().second += s.second; else y.seg.push_back(std::make_pair(off, s.second)); }
		check_range(r, 4, true, "MPI_Type_contiguous"); *r = newtype(y);
	});
	return 0;
}
int MPI_Type_create_struct(int n, const int* len, const MPI_Aint* disp, const MPI_Datatype* tt, MPI_Datatype* r) {
	enter("MPI_Type_create_struct");
	if (lib_fault("MPI_Type_create_struct")) return MPI_ERR_OTHER;
	on_rt([&] {
		Typ y; y.size = 0; y.lb = 0; long hi = 0; bool first = true;
		for (int i = 0; i < n; i++) {
			check_range(len + i, 4, false, "MPI_Type_create_struct"); check_range(disp + i, 8, false, "MPI_Type_create_struct"); check_range(tt + i, 4, false, "MPI_Type_create_struct");
			Typ b = type_of(tt[i], false, "MPI_Type_create_struct");
			for (int k = 0; k < len[i]; k++) for (auto& s : b.seg) y.seg.push_back(std::make_pair(disp[i] + k * b.extent + s.first, s.second));
			y.size += len[i] * b.size; y.align = std::max(y.align, b.align);
			if (len[i] > 0) { long l = disp[i] + b.lb; y.lb = first ? l : std::min(y.lb, l); hi = first ? l + len[i] * b.extent : std::max(hi, l + len[i] * b.extent); first = false; }
		}
		y.extent = (hi - y.lb + y.align - 1) / y.align * y.align; check_range(r, 4, true, "MPI_Type_create_struct"); *r = newtype(y);
	});
	return 0;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* r) {
	enter("MPI_Type_create_resized");
	if (lib_fault("MPI_Type_create_resized")) return MPI_ERR_OTHER;
	on_rt([&] { Typ y = type_of(o, false, "MPI_Type_create_resized"); y.lb = lb; y.extent = ext; check_range(r, 4, true, "MPI_Type_create_resized"); *r = newtype(y); });
	return 0;
}
int MPI_Type_commit(MPI_Datatype* t) {
	enter("MPI_Type_commit");
	if (lib_fault("MPI_Type_commit")) return MPI_ERR_OTHER;
	on_rt([&] { if (named(*t)) return; type_of(*t, false, "MPI_Type_commit"); types[*t].committed = true; });
	return 0;
}
int MPI_Type_free(MPI_Datatype* t) {
	enter("MPI_Type_free");
	on_rt([&] { if (named(*t)) violate(ERR, "MPI_Type_free of a predefined type"); type_of(*t, false, "MPI_Type_free"); types.erase(*t); check_range(t, 4, true, "MPI_Type_free"); *t = MPI_DATATYPE_NULL; });
	return 0;
}
int MPI_Type_size(MPI_Datatype t, int* n) { enter("MPI_Type_size"); on_rt([&] { *n = type_of(t, false, "MPI_Type_size").size; }); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { enter("MPI_Type_get_extent"); on_rt([&] { Typ y = type_of(t, false, "MPI_Type_get_extent"); *lb = y.lb; *e = y.extent; }); return 0; }

/* memory and windows */
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) {
	enter("MPI_Alloc_mem");
	if (lib_fault("MPI_Alloc_mem")) return MPI_ERR_NO_MEM;
	on_rt([&] { if (n < 0) violate(ERR, "MPI_Alloc_mem of %ld bytes", n); void* q = target_alloc(n, K_MPI); check_range(p, 8, true, "MPI_Alloc_mem"); *(void**)p = q; });
	return 0;
}
int MPI_Free_mem(void* p) { enter("MPI_Free_mem"); on_rt([&] { target_free(p, K_MPI, "MPI_Free_mem"); }); return 0; }
static int win_create(void* base, MPI_Aint n, int unit, MPI_Comm c, MPI_Win* w, const char* what, const char* fname) {
	c = cself(c);
	bool fault = lib_fault(fname);
	collective(c, what, [&](Comm&, Coll& k, int m) {
		if (n < 0 || unit <= 0) violate(ERR, "%s with invalid sizes", what);
		if (n) { u64 a = (u64)base; if (a < 65536) violate(ERR, "%s with an invalid base address", what); }
		k.a[m] = (long)base; k.b[m] = n; k.in[m].assign((char*)&unit, (char*)&unit + 4);
	}, [&](Comm& x, Coll& k, int m) {
		int h = (H_WIN << 20) + (int)(mkkey(51, c, x.seq[m] - 1) & 0xFFFFF);
		if (!wins.count(h)) {
			Win y; y.comm = commid(c, x.seq[m] - 1, 0x5757); y.mem = x.mem; y.freed = 0;
			for (size_t i = 0; i < x.mem.size(); i++) { y.base.push_back((char*)k.a[i]); y.size.push_back(k.b[i]); int u; memcpy(&u, k.in[i].data(), 4); y.unit.push_back(u); y.excl.push_back(-1); y.nshared.push_back(0); }
			std::vector<int> mem = x.mem; make_comm(y.comm, mem); // the window keeps its own communicator
			comms[y.comm].internal = true;
			wins[h] = y;
		}
		if (fault) { wins[h].freed |= 1u << m; comms[wins[h].comm].freed |= 1u << m; return; }
		check_range(w, 4, true, what); *w = h;
	});
	return fault ? MPI_ERR_OTHER : 0;
}
int MPI_Win_create(void* base, MPI_Aint n, int unit, MPI_Info, MPI_Comm c, MPI_Win* w) { return win_create(base, n, unit, c, w, "MPI_Win_create", "MPI_Win_create"); }
int MPI_Win_allocate(MPI_Aint n, int unit, MPI_Info, MPI_Comm c, void* p, MPI_Win* w) {
	void* q = 0; on_rt([&] { q = target_alloc(n, K_MPI); *(void**)p = q; });
	return win_create(q, n, unit, c, w, "MPI_Win_allocate", "MPI_Win_allocate");
}
int MPI_Win_free(MPI_Win* w) {
	int c = 0, h = *w;
	on_rt([&] { Win& x = win_of(h, "MPI_Win_free"); c = x.comm; int m = widx(x, me()); for (auto& e : x.ep) if (e.first.first == m) violate(ERR, "MPI_Win_free inside an access epoch"); 
	});
	collective(c, "MPI_Win_free", [](Comm&, Coll&, int) {}, [&](Comm&, Coll&, int) { Win& x = wins[h]; x.freed |= 1u << widx(x, me()); comms[x.comm].freed |= 1u << widx(x, me()); });
	*w = MPI_WIN_NULL; return 0;
}
int MPI_Win_lock(int type, int t, int, MPI_Win w) { wlock(type, t, w, "MPI_Win_lock"); return 0; }
int MPI_Win_unlock(int t, MPI_Win w) { wunlock(t, w, "MPI_Win_unlock"); return 0; }
static int wsize(int w) { int n = 0; on_rt([&] { n = win_of(w, "window call").mem.size(); }); return n; }
int MPI_Win_lock_all(int, MPI_Win w) { int n = wsize(w); for (int i = 0; i < n; i++) wlock(MPI_LOCK_SHARED, i, w, "MPI_Win_lock_all"); return 0; }
int MPI_Win_unlock_all(MPI_Win w) { int n = wsize(w); for (int i = 0; i < n; i++) wunlock(i, w, "MPI_Win_unlock_all"); return 0; }
int MPI_Win_flush(int t, MPI_Win w) { flush(w, t, false, "MPI_Win_flush"); return 0; }
int MPI_Win_flush_local(int t, MPI_Win w) { flush(w, t, true, "MPI_Win_flush_local"); return 0; }
static int nth_epoch(int w, int n) { int r = -1; on_rt([&] { Win& x = win_of(w, "MPI_Win_flush_all"); for (auto& e : x.ep) if (e.first.first == widx(x, me()) && e.first.second > n) { r = e.first.second; break; } }); return r; }
int MPI_Win_flush_all(MPI_Win w) { for (int t = nth_epoch(w, -1); t >= 0; t = nth_epoch(w, t)) flush(w, t, false, "MPI_Win_flush_all"); return 0; }
int MPI_Win_flush_local_all(MPI_Win w) { return MPI_Win_flush_all(w); }
int MPI_Win_sync(MPI_Win) { return 0; }
int MPI_Win_fence(int, MPI_Win) { on_rt([&] { violate("limit", "MPI_Win_fence is not simulated"); }); return 0; }
int MPI_Get(void* o, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { rma(0, o, on, ot, t, d, tn, tt, 0, w, "MPI_Get"); return 0; }
int MPI_Put(const void* o, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { rma(1, o, on, ot, t, d, tn, tt, 0, w, "MPI_Put"); return 0; }
int MPI_Accumulate(const void* o, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w) {
	for (int i = 0; i < on; i++) { Buf* b; on_rt([&] { b = new Buf(pack((const char*)o + i * named(ot), 1, ot, "MPI_Accumulate")); }); rma(4, 0, 1, ot, t, d + i * named(ot), 1, tt, op, w, "MPI_Accumulate", *b); on_rt([&] { delete b; }); }
	return 0;
}
int MPI_Fetch_and_op(const void* o, void* r, MPI_Datatype t, int tg, MPI_Aint d, MPI_Op op, MPI_Win w) {
	Buf* b; on_rt([&] { if (!named(t)) violate(ERR, "MPI_Fetch_and_op with a derived type"); b = op == MPI_NO_OP ? new Buf(8) : new Buf(pack(o, 1, t, "MPI_Fetch_and_op")); });
	rma(2, r, 1, t, tg, d, 1, t, op, w, "MPI_Fetch_and_op", *b); on_rt([&] { delete b; }); return 0;
}
int MPI_Compare_and_swap(const void* o, const void* cmp, void* r, MPI_Datatype t, int tg, MPI_Aint d, MPI_Win w) {
	Buf* b; on_rt([&] { if (!named(t)) violate(ERR, "MPI_Compare_and_swap with a derived type"); b = new Buf(pack(cmp, 1, t, "MPI_Compare_and_swap")); Buf z = pack(o, 1, t, "MPI_Compare_and_swap"); b->insert(b->end(), z.begin(), z.end()); });
	rma(3, r, 1, t, tg, d, 1, t, 0, w, "MPI_Compare_and_swap", *b); on_rt([&] { delete b; }); return 0;
}
int MPI_Get_processor_name(char* s, int* n) {
	enter("MPI_Get_processor_name");
	on_rt([&] {
		std::string h = hosts.count(me()) ? hosts[me()] : "node";
		check_range(s, h.size() + 1, true, "MPI_Get_processor_name"); memcpy(s, h.c_str(), h.size() + 1);
		check_range(n, 4, true, "MPI_Get_processor_name"); *n = h.size();
	});
	return 0;
}
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "MPI error"); *n = 9; return 0; }
double MPI_Wtime(void) { return 0; }

/* harness interface */
void mc_hostname(int r, const char* n) { on_rt([&] { hosts[r] = n; }); }
long mc_mpi_count(const char* w) { long r = 0; on_rt([&] { auto i = counts[me()].find(w); if (i != counts[me()].end()) r = i->second; }); return r; }
long mc_live(const char* k) {
	long n = 0;
	on_rt([&] {
		std::string d; int r = me(); bool all = !strcmp(k, "all");
		if (all || !strcmp(k, "mem")) n += live_blocks(r, ~0, &d);
		if (all || !strcmp(k, "mpimem")) n += all ? 0 : live_blocks(r, 1 << K_MPI, &d);
		if (all || !strcmp(k, "comm")) for (auto& c : comms) if (c.first >> 20 && !c.second.internal) { int m = idx(c.second, r); if (m < (int)c.second.mem.size() && !(c.second.freed >> m & 1)) n++; }
		if (all || !strcmp(k, "group")) for (auto& g : groups) n += g.second.rank == r;
		if (all || !strcmp(k, "type")) for (auto& g : types) n += g.second.rank == r && g.second.live;
		if (all || !strcmp(k, "win")) for (auto& w : wins) { int m = widx(w.second, r); if (m < (int)w.second.mem.size() && !(w.second.freed >> m & 1)) n++; }
		if (all || !strcmp(k, "req")) for (auto& g : reqs) n += g.second.rank == r;
		if (all || !strcmp(k, "file")) n += mc_nc_open_files();
		if (!strcmp(k, "msg")) for (auto& c : chans) if (comms.count(c.first.first) && comms[c.first.first].mem[c.first.second.second] == r) n += c.second.q.size();
		if (!d.empty()) note("live memory:%s", d.c_str());
	});
	return n;
}
}

static void reset() {
	types.clear(); comms.clear(); groups.clear(); chans.clear(); reqs.clear(); wins.clear(); hosts.clear();
	for (auto& c : counts) c.clear();
	memset(seqno, 0, sizeof seqno);
	std::vector<int> w; for (int i = 0; i < nranks; i++) w.push_back(i);
	make_comm(MPI_COMM_WORLD, w);
	for (int i = 0; i < nranks; i++) make_comm(100 + i, std::vector<int>(1, i));
}
static void hbuf(Hash& h, const Buf& b) { h.add(b.size()); h.mem(b.data(), b.size()); }
static void hash(Hash& h) {
	h.mem(seqno, sizeof seqno);
	for (auto& t : types) { h.add(t.first); h.add(t.second.committed | t.second.live << 1); h.add(t.second.size); h.add(t.second.extent); }
	for (auto& c : comms) {
		h.add(c.first); h.add(c.second.freed); h.mem(c.second.seq, sizeof c.second.seq); h.mem(c.second.busy, sizeof c.second.busy);
		for (auto& k : c.second.coll) { h.add(k.first); h.add((u64)k.second.arrived << 32 | k.second.left); for (auto& b : k.second.in) hbuf(h, b); for (long a : k.second.a) h.add(a); for (long a : k.second.b) h.add(a); }
	}
	for (auto& g : groups) h.add(g.first);
	for (auto& c : chans) {
		if (c.second.q.empty() && c.second.done.empty()) continue;
		h.add(c.first.first); h.add(c.first.second.first << 8 | c.first.second.second);
		for (auto& m : c.second.q) { h.add(m.tag); h.add(m.id << 2 | m.sync << 1 | m.captured); h.add((u64)m.ptr); h.add(m.n); hbuf(h, m.data); }
		for (auto& d : c.second.done) h.add(d.first);
		h.add(c.second.done.size());
	}
	for (auto& r : reqs) { h.add(r.first); h.add(r.second.id); h.add((u64)r.second.buf); }
	for (auto& w : wins) {
		h.add(w.first); h.add(w.second.freed);
		for (size_t i = 0; i < w.second.mem.size(); i++) { h.add((u64)w.second.base[i]); h.add(w.second.excl[i]); h.add(w.second.nshared[i]); }
		for (auto& e : w.second.ep) { h.add(e.first.first << 8 | e.first.second); h.add(e.second.type); for (auto& o : e.second.ops) { h.add(o.kind | o.captured << 8); h.add((u64)o.o); h.add(o.disp); h.add(o.tn); hbuf(h, o.cap); } }
	}
	for (auto& c : counts) for (auto& p : c) h.add(p.second);
}
static void end() {
	for (auto& c : chans) for (auto& m : c.second.q) violate(ERR, "a message from rank %d to rank %d with tag %d was never received", c.first.second.first, c.first.second.second, m.tag);
}
static struct RegMpi { RegMpi() { SimMod m = {reset, hash, end}; register_sim(m); } } reg;
