/* The calls whose results are compared: executed against libnetcdf (nc_real.cpp, which
 * writes the table) and against the simulated library (nc_sim.cpp, which checks it).
 * EMIT(v) reports one observed value. */
static const int NTYPES = 10;
static const int TY[NTYPES] = {NC_BYTE, NC_UBYTE, NC_SHORT, NC_USHORT, NC_INT, NC_UINT, NC_INT64, NC_UINT64, NC_FLOAT, NC_DOUBLE};
static const int NV = 24;
static int vals(int t, unsigned char* b) // NV values of that type, returns the size of one
{
#define V(n, T) case n: { T* p = (T*)b; long double lim[] = {0, 1, -1, 100, 127, 128, 129, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, 2147483647.0L, 2147483648.0L, 4294967295.0L, 1e10L, -1e10L, 3.4e38L, 1e300L, -1e300L}; \
	for (int i = 0; i < NV; i++) { long double lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(), x = lim[i]; p[i] = (T)(x < lo ? lo : x > hi ? hi : x); } return sizeof(T); }
	switch (t) { V(NC_BYTE, signed char) V(NC_UBYTE, unsigned char) V(NC_SHORT, short) V(NC_USHORT, unsigned short) V(NC_INT, int) V(NC_UINT, unsigned) V(NC_INT64, long long) V(NC_UINT64, unsigned long long) V(NC_FLOAT, float) V(NC_DOUBLE, double) }
	return 0;
#undef V
}
static long hash(const void* p, unsigned long n) { unsigned long h = 1469598103934665603ul; for (unsigned long i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ul; return (long)(h >> 1); }
template<class T> static bool fits(long double x) { return std::numeric_limits<T>::is_integer ? x >= (long double)std::numeric_limits<T>::lowest() && x <= (long double)std::numeric_limits<T>::max() : sizeof(T) == 8 || (x <= 3.4e38L && x >= -3.4e38L); }
/* one value at a time: the result code, and the value where it can be represented */
template<class T, class G> static void one(int f, int v, int n, G get)
{
	for (size_t i = 0; i < (size_t)n; i++) { T x; memset(&x, 0, sizeof x); int r = get(f, v, &i, &x); EMIT(r); if (r == NC_NOERR) EMIT(hash(&x, sizeof x)); }
}
/* parts of a 3-dimensional array, also beyond its end */
template<class T, class G> static void part(int f, int v, G get)
{
	for (int a = 0; a < 3; a++) for (int c = 1; c < 4; c++) for (int s = 1; s < 3; s++) for (int order = 0; order < 2; order++) {
		size_t start[3] = {0, (size_t)a, (size_t)(a / 2)}, count[3] = {2, (size_t)c, (size_t)(c > 2 ? 2 : c)}; ptrdiff_t st[3] = {1, s, 1};
		ptrdiff_t m[3] = {order ? 1 : 20, order ? 4 : 5, order ? 20 : 1};
		T b[100]; memset(b, 0x55, sizeof b);
		int r = get(f, v, start, count, st, m, b); EMIT(r == NC_EEDGE || r == NC_EINVALCOORDS ? 1 : r); if (r == NC_NOERR) EMIT(hash(b, sizeof b));
	}
}
static void program(int f)
{
	int x; size_t n; nc_type t; char s[NC_MAX_NAME + 1]; int ids[8];
	EMIT(nc_inq_varid(f, "nothing", &x)); EMIT(nc_inq_varid(f, "cube", &x) == 0); int cube = x;
	EMIT(nc_inq_varid(f, "xx", &x)); EMIT(nc_inq_varid(f, "scalar", &x) == 0); int scalar = x;
	EMIT(nc_inq_varndims(f, cube, &x)); EMIT(x); EMIT(nc_inq_varndims(f, scalar, &x)); EMIT(x);
	EMIT(nc_inq_vardimid(f, cube, ids));
	for (int i = 0; i < 3; i++) { EMIT(nc_inq_dim(f, ids[i], s, &n)); EMIT(n); EMIT(hash(s, strlen(s))); EMIT(nc_inq_dimlen(f, ids[i], &n)); EMIT(n); }
	EMIT(nc_inq_dim(f, 99, s, &n)); EMIT(nc_inq_vartype(f, cube, &t)); EMIT(t); EMIT(nc_inq_type(f, t, 0, &n)); EMIT(n);
	EMIT(nc_inq_varndims(f, 99, &x)); EMIT(nc_inq_vartype(f, 99, &t));
	for (int k = 0; k < NTYPES; k++) { EMIT(nc_inq_type(f, TY[k], 0, &n)); EMIT(n); }
	for (int k = 0; k < NTYPES; k++) {
		char name[16]; sprintf(name, "v%d", k); int v; EMIT(nc_inq_varid(f, name, &v));
		one<unsigned char>(f, v, NV, nc_get_var1_uchar); one<int>(f, v, NV, nc_get_var1_int); one<long>(f, v, NV, nc_get_var1_long); one<float>(f, v, NV, nc_get_var1_float); one<double>(f, v, NV, nc_get_var1_double);
		size_t beyond = NV; double d; EMIT(nc_get_var1_double(f, v, &beyond, &d));
	}
	int text; EMIT(nc_inq_varid(f, "text", &text)); { size_t i = 0; double d; float fl; unsigned char u; EMIT(nc_get_var1_double(f, text, &i, &d)); EMIT(nc_get_var1_float(f, text, &i, &fl)); (void)u; }
	{ size_t i = 0; double d = 0; EMIT(nc_get_var1_double(f, scalar, &i, &d)); EMIT((long)d); size_t z = 0; EMIT(nc_get_vara_double(f, scalar, &z, &z, &d)); EMIT((long)d); }
	part<unsigned char>(f, cube, nc_get_varm_uchar); part<int>(f, cube, nc_get_varm_int); part<long>(f, cube, nc_get_varm_long); part<float>(f, cube, nc_get_varm_float); part<double>(f, cube, nc_get_varm_double);
	part<int>(f, cube, [](int f, int v, const size_t* a, const size_t* c, const ptrdiff_t*, const ptrdiff_t*, int* b) { return nc_get_vara_int(f, v, a, c, b); });
	part<float>(f, cube, [](int f, int v, const size_t* a, const size_t* c, const ptrdiff_t*, const ptrdiff_t*, float* b) { return nc_get_vara_float(f, v, a, c, b); });
	part<double>(f, cube, [](int f, int v, const size_t* a, const size_t* c, const ptrdiff_t* s, const ptrdiff_t*, double* b) { return nc_get_vars_double(f, v, a, c, s, b); });
	part<int>(f, cube, [](int f, int v, const size_t* a, const size_t* c, const ptrdiff_t* s, const ptrdiff_t* m, int* b) { return nc_get_varm(f, v, a, c, s, m, b); });
	part<int>(f, cube, [](int f, int v, const size_t* a, const size_t* c, const ptrdiff_t*, const ptrdiff_t*, int* b) { return nc_get_vara(f, v, a, c, b); });
	/* a compound type: as the library under test reads it */
	int pair; EMIT(nc_inq_varid(f, "pairs", &pair)); EMIT(nc_inq_vartype(f, pair, &t)); EMIT(t > NC_MAX_ATOMIC_TYPE); EMIT(nc_inq_type(f, t, 0, &n)); EMIT(n);
	for (size_t a = 0; a < 4; a++) for (size_t c = 0; c < 5; c++) { long b[16]; memset(b, 0x55, sizeof b); int r = nc_get_vara(f, pair, &a, &c, b); EMIT(r); if (!r) EMIT(hash(b, sizeof b)); ptrdiff_t st = 1, m = 1; EMIT(nc_get_varm(f, pair, &a, &c, &st, &m, b) != 0); }
	{ size_t a = 0; double d; EMIT(nc_get_var1_double(f, pair, &a, &d)); }
	{ size_t a[3] = {0, 0, 0}, c[3] = {0, 2, 2}; int b[8]; EMIT(nc_get_vara_int(f, cube, a, c, b)); a[0] = 2; EMIT(nc_get_vara_int(f, cube, a, c, b)); a[0] = 3; EMIT(nc_get_vara_int(f, cube, a, c, b)); }
}
