/* Calls with the same result in every schedule; EMIT(v) reports one observed value. */
static long hash(const void* p, unsigned long n) { unsigned long h = 1469598103934665603ul; for (unsigned long i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ul; return (long)(h >> 1); }
struct S { char c; int pad; double d; short s[3]; };
static MPI_Datatype structType()
{
	int len[] = {1, 1, 3}; MPI_Aint disp[] = {offsetof(S, c), offsetof(S, d), offsetof(S, s)}; MPI_Datatype t[] = {MPI_CHAR, MPI_DOUBLE, MPI_SHORT}, a, b;
	MPI_Type_create_struct(3, len, disp, t, &a); MPI_Type_create_resized(a, 0, sizeof(S), &b); MPI_Type_commit(&b); MPI_Type_free(&a); return b;
}
static long hs(const S* s, int n) { long h = 0; for (int i = 0; i < n; i++) h = h * 31 + s[i].c + (long)(s[i].d * 8) * 7 + s[i].s[0] * 3 + s[i].s[1] * 5 + s[i].s[2] * 11 + s[i].pad * 13; return h; }
static void fill(S* s, int n, int k) { memset(s, 0, n * sizeof(S)); for (int i = 0; i < n; i++) { s[i].c = k + i; s[i].d = k * 0.5 + i; for (int j = 0; j < 3; j++) s[i].s[j] = k * 3 + i + j; s[i].pad = 77; } }
static void communicators(int rank, int size)
{
	MPI_Comm c, e; int r, n;
	MPI_Comm_dup(MPI_COMM_WORLD, &c); MPI_Comm_rank(c, &r); MPI_Comm_size(c, &n); EMIT(r); EMIT(n); EMIT(c != MPI_COMM_WORLD);
	for (int key = -1; key < 2; key++) { MPI_Comm_split(c, rank % 2, key * rank, &e); MPI_Comm_rank(e, &r); MPI_Comm_size(e, &n); EMIT(r); EMIT(n); MPI_Comm_free(&e); EMIT(e == MPI_COMM_NULL); }
	MPI_Comm_split(c, rank == 0 ? MPI_UNDEFINED : 3, 0, &e); EMIT(e == MPI_COMM_NULL); if (e != MPI_COMM_NULL) { MPI_Comm_rank(e, &r); EMIT(r); MPI_Comm_free(&e); }
	MPI_Comm_split(c, rank / 2, 0, &e);
	MPI_Group g, h; MPI_Comm_group(c, &g); MPI_Comm_group(e, &h); MPI_Group_size(h, &n); MPI_Group_rank(h, &r); EMIT(n); EMIT(r);
	int in[4] = {0, 1, 2, MPI_PROC_NULL}, out[4]; int m = size < 3 ? size : 3; in[m] = MPI_PROC_NULL;
	MPI_Group_translate_ranks(g, m + 1, in, h, out); for (int i = 0; i <= m; i++) EMIT(out[i] == MPI_UNDEFINED ? -100 : out[i] == MPI_PROC_NULL ? -200 : out[i]);
	for (int i = 0; i < n; i++) { MPI_Group_translate_ranks(h, 1, &i, g, out); EMIT(out[0]); }
	MPI_Group_free(&g); MPI_Group_free(&h); EMIT(g == MPI_GROUP_NULL); MPI_Comm_free(&e); MPI_Comm_free(&c);
}
static void types()
{
	MPI_Datatype t, u; int n; MPI_Aint lb, ex;
	MPI_Datatype basic[] = {MPI_CHAR, MPI_BYTE, MPI_UNSIGNED_CHAR, MPI_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_FLOAT, MPI_DOUBLE};
	for (int i = 0; i < 10; i++) { MPI_Type_size(basic[i], &n); EMIT(n); MPI_Type_get_extent(basic[i], &lb, &ex); EMIT(lb); EMIT(ex); }
	for (int k = 0; k < 4; k++) { MPI_Type_contiguous(k, MPI_INT, &t); MPI_Type_commit(&t); MPI_Type_size(t, &n); EMIT(n); MPI_Type_get_extent(t, &lb, &ex); EMIT(lb); EMIT(ex); MPI_Type_free(&t); EMIT(t == MPI_DATATYPE_NULL); }
	t = structType(); MPI_Type_size(t, &n); EMIT(n); MPI_Type_get_extent(t, &lb, &ex); EMIT(lb); EMIT(ex);
	MPI_Type_contiguous(3, t, &u); MPI_Type_commit(&u); MPI_Type_size(u, &n); EMIT(n); MPI_Type_get_extent(u, &lb, &ex); EMIT(ex); MPI_Type_free(&u); MPI_Type_free(&t);
	for (int k = 1; k < 12; k++) { int l[] = {1, k}; MPI_Aint d[] = {0, 8}; MPI_Datatype q[] = {MPI_DOUBLE, MPI_CHAR}; MPI_Type_create_struct(2, l, d, q, &t); MPI_Type_size(t, &n); EMIT(n); MPI_Type_get_extent(t, &lb, &ex); EMIT(lb); EMIT(ex); MPI_Type_contiguous(2, t, &u); MPI_Type_get_extent(u, &lb, &ex); EMIT(ex); MPI_Type_free(&u); MPI_Type_free(&t); }
	int len[] = {1, 2}; MPI_Aint disp[] = {4, 12}; MPI_Datatype tt[] = {MPI_SHORT, MPI_INT};
	MPI_Type_create_struct(2, len, disp, tt, &t); MPI_Type_size(t, &n); EMIT(n); MPI_Type_get_extent(t, &lb, &ex); EMIT(lb); EMIT(ex); MPI_Type_free(&t);
}
static void collectives(int rank, int size)
{
	MPI_Datatype t = structType(); S s[2];
	for (int root = 0; root < size; root++) { fill(s, 2, rank * 10); MPI_Bcast(s, 2, t, root, MPI_COMM_WORLD); EMIT(hs(s, 2)); int x = rank + 5; MPI_Bcast(&x, 1, MPI_INT, root, MPI_COMM_WORLD); EMIT(x); }
	MPI_Type_free(&t);
	int in[3] = {rank, 5 - rank, 1 << rank}, out[3];
	MPI_Op ops[] = {MPI_MIN, MPI_MAX, MPI_SUM, MPI_BOR};
	for (int i = 0; i < 4; i++) { MPI_Allreduce(in, out, 3, MPI_INT, ops[i], MPI_COMM_WORLD); for (int k = 0; k < 3; k++) EMIT(out[k]); }
	unsigned long u = rank + 1, v = 0; MPI_Reduce(&u, &v, 1, MPI_UNSIGNED_LONG, MPI_SUM, size - 1, MPI_COMM_WORLD); EMIT(rank == size - 1 ? v : 0);
	double d = rank * 1.5, e[8]; MPI_Allgather(&d, 1, MPI_DOUBLE, e, 1, MPI_DOUBLE, MPI_COMM_WORLD); for (int i = 0; i < size; i++) EMIT((long)(e[i] * 2));
	char name[8] = {(char)('a' + rank), 0}, all[64]; MPI_Allgather(name, 8, MPI_CHAR, all, 8, MPI_CHAR, MPI_COMM_WORLD); EMIT(hash(all, 8 * size));
	memset(all, 0, sizeof all); MPI_Gather(name, 8, MPI_CHAR, all, 8, MPI_CHAR, 0, MPI_COMM_WORLD); EMIT(hash(all, rank == 0 ? 8 * size : 64));
}
static void wait(MPI_Request* r) { int done = 0; while (!done) MPI_Test(r, &done, MPI_STATUS_IGNORE); }
static void messages(int rank, int size)
{
	MPI_Request r[4]; MPI_Status st; int f, n; long a[4] = {rank, 100 + rank, 200 + rank, 300 + rank}, b[4];
	MPI_Iprobe(MPI_ANY_SOURCE, 1234, MPI_COMM_WORLD, &f, &st); EMIT(f);
	/* to oneself, two tags, received in the other order */
	MPI_Isend(&a[0], 1, MPI_LONG, rank, 1, MPI_COMM_WORLD, &r[0]); MPI_Isend(&a[1], 2, MPI_LONG, rank, 2, MPI_COMM_WORLD, &r[1]);
	MPI_Recv(b, 4, MPI_LONG, rank, 2, MPI_COMM_WORLD, &st); MPI_Get_count(&st, MPI_LONG, &n); EMIT(n); EMIT(st.MPI_TAG); EMIT(st.MPI_SOURCE); EMIT(b[0]); EMIT(b[1]);
	MPI_Recv(b, 4, MPI_LONG, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &st); EMIT(st.MPI_TAG); EMIT(st.MPI_SOURCE); EMIT(b[0]); wait(&r[0]); wait(&r[1]); EMIT(r[0] == MPI_REQUEST_NULL);
	if (size == 1) return;
	int next = (rank + 1) % size, prev = (rank + size - 1) % size;
	/* the order of messages between two processes is kept; communicators are separate */
	MPI_Comm c; MPI_Comm_dup(MPI_COMM_WORLD, &c);
	for (int i = 0; i < 2; i++) MPI_Isend(&a[i], 1, MPI_LONG, next, 3, MPI_COMM_WORLD, &r[i]);
	MPI_Isend(&a[3], 1, MPI_LONG, next, 3, c, &r[2]);
	MPI_Recv(b, 1, MPI_LONG, prev, 3, c, &st); EMIT(b[0]);
	f = 0; while (!f) MPI_Iprobe(prev, 3, MPI_COMM_WORLD, &f, &st); EMIT(st.MPI_SOURCE); MPI_Get_count(&st, MPI_LONG, &n); EMIT(n);
	MPI_Recv(b, 1, MPI_LONG, prev, 3, MPI_COMM_WORLD, &st); EMIT(b[0]); MPI_Recv(b, 1, MPI_LONG, prev, 3, MPI_COMM_WORLD, &st); EMIT(b[0]);
	for (int i = 0; i < 3; i++) wait(&r[i]);
	MPI_Comm_free(&c);
	/* synchronous sends; the receives are completed in the other order */
	MPI_Irecv(&b[0], 1, MPI_LONG, prev, 7, MPI_COMM_WORLD, &r[0]); MPI_Irecv(&b[1], 1, MPI_LONG, prev, 8, MPI_COMM_WORLD, &r[1]);
	MPI_Isend(&a[2], 1, MPI_LONG, next, 8, MPI_COMM_WORLD, &r[2]); MPI_Issend(&a[1], 1, MPI_LONG, next, 7, MPI_COMM_WORLD, &r[3]);
	for (int i = 0; i < 4; i++) wait(&r[i]);
	if (rank) MPI_Recv(&b[2], 1, MPI_LONG, rank - 1, 11, MPI_COMM_WORLD, &st); else b[2] = 5;
	b[2]++; if (rank + 1 < size) MPI_Ssend(&b[2], 1, MPI_LONG, rank + 1, 11, MPI_COMM_WORLD); EMIT(b[2]);
	EMIT(b[0]); EMIT(b[1]);
	MPI_Datatype t = structType(); S s[2], q[2]; fill(s, 2, rank * 7); fill(q, 2, 50);
	MPI_Isend(s, 2, t, next, 9, MPI_COMM_WORLD, &r[0]); MPI_Recv(q, 2, t, prev, 9, MPI_COMM_WORLD, &st); MPI_Get_count(&st, t, &n); EMIT(n); EMIT(hs(q, 2)); wait(&r[0]); MPI_Type_free(&t);
	/* a message from everybody to 0 */
	if (rank) MPI_Send(a, 3, MPI_LONG, 0, 10, MPI_COMM_WORLD);
	else { long sum = 0; for (int i = 1; i < size; i++) { MPI_Recv(b, 4, MPI_LONG, MPI_ANY_SOURCE, 10, MPI_COMM_WORLD, &st); MPI_Get_count(&st, MPI_LONG, &n); EMIT(n); EMIT(b[0] == st.MPI_SOURCE); sum += b[2]; } EMIT(sum); }
}
static void windows(int rank, int size)
{
	long* m; MPI_Alloc_mem(8 * sizeof(long), MPI_INFO_NULL, &m); for (int i = 0; i < 8; i++) m[i] = rank * 100 + i;
	MPI_Win w; MPI_Win_create(m, 8 * sizeof(long), sizeof(long), MPI_INFO_NULL, MPI_COMM_WORLD, &w);
	int next = (rank + 1) % size; long b[8] = {0};
	MPI_Win_lock(MPI_LOCK_SHARED, next, 0, w); MPI_Get(b, 3, MPI_LONG, next, 2, 3, MPI_LONG, w); MPI_Win_unlock(next, w); for (int i = 0; i < 3; i++) EMIT(b[i]);
	for (int t = 0; t < size; t++) { MPI_Win_lock(MPI_LOCK_SHARED, t, MPI_MODE_NOCHECK * 0, w); MPI_Get(b, 1, MPI_LONG, t, 7, 1, MPI_LONG, w); MPI_Win_unlock(t, w); EMIT(b[0]); }
	MPI_Barrier(MPI_COMM_WORLD);
	long v = 1000 + rank; MPI_Win_lock(MPI_LOCK_EXCLUSIVE, next, 0, w); MPI_Put(&v, 1, MPI_LONG, next, 5, 1, MPI_LONG, w); MPI_Win_unlock(next, w);
	MPI_Barrier(MPI_COMM_WORLD);
	MPI_Win_lock(MPI_LOCK_SHARED, rank, 0, w); EMIT(m[5]); EMIT(m[4]); MPI_Win_unlock(rank, w);
	MPI_Barrier(MPI_COMM_WORLD);
	/* read, change, write back under an exclusive lock: nothing is lost */
	MPI_Win_lock(MPI_LOCK_EXCLUSIVE, 0, 0, w); MPI_Get(&v, 1, MPI_LONG, 0, 6, 1, MPI_LONG, w); MPI_Win_flush(0, w); v += 1; MPI_Put(&v, 1, MPI_LONG, 0, 6, 1, MPI_LONG, w); MPI_Win_unlock(0, w);
	long one = 2; MPI_Win_lock(MPI_LOCK_SHARED, 0, 0, w); MPI_Fetch_and_op(&one, &v, MPI_LONG, 0, 7, MPI_SUM, w); MPI_Win_unlock(0, w);
	MPI_Win_lock(MPI_LOCK_SHARED, 0, 0, w); MPI_Accumulate(&one, 1, MPI_LONG, 0, 1, 1, MPI_LONG, MPI_SUM, w); MPI_Win_unlock(0, w);
	long cmp = 0, n = 9; MPI_Win_lock(MPI_LOCK_SHARED, 0, 0, w); MPI_Compare_and_swap(&n, &cmp, &v, MPI_LONG, 0, 0, w); MPI_Win_unlock(0, w); EMIT(v == 0 || v == 9);
	MPI_Barrier(MPI_COMM_WORLD);
	MPI_Win_lock_all(0, w); MPI_Get(b, 8, MPI_LONG, 0, 0, 8, MPI_LONG, w); MPI_Win_flush(0, w); EMIT(b[0]); EMIT(b[1]); EMIT(b[6]); EMIT(b[7]); MPI_Win_unlock_all(w);
	MPI_Barrier(MPI_COMM_WORLD);
	MPI_Win_free(&w); EMIT(w == MPI_WIN_NULL);
	/* a window of bytes, derived types, processes without memory */
	S* s; MPI_Alloc_mem(3 * sizeof(S), MPI_INFO_NULL, &s); fill(s, 3, rank * 20); MPI_Datatype t = structType(); S q[2]; fill(q, 2, 90);
	MPI_Win_create(s, rank == size - 1 ? 0 : 3 * sizeof(S), 1, MPI_INFO_NULL, MPI_COMM_WORLD, &w);
	if (size > 1) { MPI_Win_lock(MPI_LOCK_SHARED, 0, 0, w); MPI_Get(q, 2, t, 0, sizeof(S), 2, t, w); MPI_Win_unlock(0, w); EMIT(hs(q, 2)); }
	MPI_Win_free(&w); MPI_Type_free(&t); MPI_Free_mem(s); MPI_Free_mem(m);
}
static void program(int part, int rank, int size)
{
	if (part == 0) communicators(rank, size); if (part == 1) types(); if (part == 2) collectives(rank, size); if (part == 3) messages(rank, size); if (part == 4) windows(rank, size);
}
