/* Element types: every accessor of basic, array and struct grids on files of every
 * element type, through the C++, C and Fortran interfaces, on one and two ranks. */
#include "common.h"
#include "asagi.h"
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <limits>
#include <netcdf.h>
using asagi::Grid;
extern "C" {
Grid* asagi_grid_create(Grid::Type); Grid* asagi_grid_create_array(Grid::Type); Grid* asagi_grid_create_struct(unsigned int, unsigned int*, unsigned long*, Grid::Type*);
Grid::Error asagi_grid_open(Grid*, const char*, unsigned int); void asagi_grid_set_param(Grid*, const char*, const char*, unsigned int); void asagi_grid_set_comm(Grid*, MPI_Comm); void asagi_grid_close(Grid*);
unsigned char asagi_grid_get_byte(Grid*, const double*, unsigned int); int asagi_grid_get_int(Grid*, const double*, unsigned int); long asagi_grid_get_long(Grid*, const double*, unsigned int);
float asagi_grid_get_float(Grid*, const double*, unsigned int); double asagi_grid_get_double(Grid*, const double*, unsigned int); void asagi_grid_get_buf(Grid*, void*, const double*, unsigned int); unsigned int asagi_grid_var_size(Grid*);
int f90asagi_grid_create(Grid::Type); int f90asagi_grid_create_array(Grid::Type); int f90asagi_grid_create_struct(int, int*, long*, Grid::Type*);
Grid::Error f90asagi_grid_open(int, const char*, int); void f90asagi_grid_set_param(int, const char*, const char*, int); void f90asagi_grid_set_comm(int, int); void f90asagi_grid_close(int);
unsigned char f90asagi_grid_get_byte(int, double*, int); int f90asagi_grid_get_int(int, double*, int); long f90asagi_grid_get_long(int, double*, int);
float f90asagi_grid_get_float(int, double*, int); double f90asagi_grid_get_double(int, double*, int); void f90asagi_grid_get_buf(int, void*, double*, int); int f90asagi_grid_var_size(int);
}
enum { BASIC, ARRAY, STRUCT };
static int kind, elem, ft, shape, api;
static const int N = 7;                                    // elements of the grid
static const int nct[] = {NC_BYTE, NC_UBYTE, NC_SHORT, NC_USHORT, NC_INT, NC_UINT, NC_INT64, NC_UINT64, NC_FLOAT, NC_DOUBLE};
static const int ncs[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
static const long double cand[] = {1, -2, 100, 127, -128, 200, 255, 300, 32767, -32768, 65535, 65536, 2147483647.0L, -2147483648.0L, 4294967295.0L, 4294967296.0L, 9007199254740993.0L, 9223372036854775807.0L, -9223372036854775807.0L, 0.5L, 1.5L, -2.75L, 16777217.0L, 3.0e38L, 1e300L, 0};
/* struct layouts: members (type, length, displacement), size */
struct Member { int type, len; long disp; };
struct Layout { int n; Member m[3]; int size; };
static const int esz[] = {1, 4, 8, 4, 8};
static Layout layout(int first, int shape)
{
	int s = esz[first];
	Layout a = {1, {{first, 1, 0}}, s}, b = {2, {{first, 1, 0}, {Grid::DOUBLE, 1, 8}}, 16}, c = {3, {{first, 3, 0}, {Grid::INT, 1, 24}, {Grid::BYTE, 2, 29}}, 32}, d = {2, {{first, 1, 0}, {Grid::FLOAT, 2, 8}}, 24};
	return shape == 0 ? a : shape == 1 ? b : shape == 2 ? c : d;
}
template<class F> static bool fits(long double v)
{
	if (std::numeric_limits<F>::is_integer) return v == floorl(v) && v >= (long double)std::numeric_limits<F>::lowest() && v <= (long double)std::numeric_limits<F>::max();
	return fabsl(v) <= (long double)std::numeric_limits<F>::max();
}
/* can v be converted to D without undefined behaviour? integers wrap */
template<class D, class S> static bool convertible(S v)
{
	if (!std::numeric_limits<D>::is_integer) return fabsl((long double)v) <= (long double)std::numeric_limits<D>::max();
	if (std::numeric_limits<S>::is_integer) return true;
	long double x = truncl((long double)v);
	return x >= (long double)std::numeric_limits<D>::lowest() && x <= (long double)std::numeric_limits<D>::max();
}
/* in range for NetCDF (no NC_ERANGE) */
template<class T, class F> static bool inrange(F v) { long double x = v; if (!std::numeric_limits<T>::is_integer) return fabsl(x) <= (long double)std::numeric_limits<T>::max(); return x >= (long double)std::numeric_limits<T>::lowest() && x <= (long double)std::numeric_limits<T>::max(); }
static unsigned char filedata[N * 64]; static unsigned char want[N][64]; static int esize;
static int nvals;
template<class T, class F> static void fill()
{
	int page = mc_ghost_get(104), skipped = 0; nvals = 0;
	for (unsigned k = 0; k < sizeof cand / sizeof *cand && nvals < N; k++) {
		if (!fits<F>(cand[k]) || !inrange<T, F>((F)cand[k])) continue;
		if (skipped++ < page * N) continue;
		F f = (F)cand[k]; T t = (T)f;
		memcpy(filedata + nvals * sizeof(F), &f, sizeof f); memcpy(want[nvals], &t, sizeof t); nvals++;
	}
	if (!nvals) { mc_ghost_set(105, 0); return; }
	for (int i = nvals; i < N; i++) { memcpy(filedata + i * sizeof(F), filedata, sizeof(F)); memcpy(want[i], want[0], sizeof(T)); }
	nvals = N; esize = sizeof(T);
}
template<class T> static void fillFile()
{
	switch (ft) {
	case 0: fill<T, signed char>(); break; case 1: fill<T, unsigned char>(); break; case 2: fill<T, short>(); break; case 3: fill<T, unsigned short>(); break;
	case 4: fill<T, int>(); break; case 5: fill<T, unsigned>(); break; case 6: fill<T, long long>(); break; case 7: fill<T, unsigned long long>(); break;
	case 8: fill<T, float>(); break; case 9: fill<T, double>(); break;
	}
}
template<class T> static T elemValue(int i, int k) { static const long double c[] = {1, 2, 100, 127, 65, 77, 90}; return (T)(c[i] + (std::numeric_limits<T>::is_integer ? 0 : 0.5L) - (k % 50)); }
static void putElem(unsigned char* p, int type, int i, int k)
{
	unsigned char b = elemValue<unsigned char>(i, k); int n = elemValue<int>(i, k) * 70000; long l = elemValue<long>(i, k) * 5000000000l; float f = elemValue<float>(i, k); double d = elemValue<double>(i, k) * 1e100;
	switch (type) { case 0: memcpy(p, &b, 1); break; case 1: memcpy(p, &n, 4); break; case 2: memcpy(p, &l, 8); break; case 3: memcpy(p, &f, 4); break; case 4: memcpy(p, &d, 8); break; }
}
static void content()
{
	elem = mc_arg("elem", 3); kind = mc_ghost_get(101); ft = mc_ghost_get(102); shape = mc_ghost_get(103);
	if (kind == BASIC) {
		switch (elem) { case 0: fillFile<unsigned char>(); break; case 1: fillFile<int>(); break; case 2: fillFile<long>(); break; case 3: fillFile<float>(); break; case 4: fillFile<double>(); break; }
		return;
	}
	nvals = N;
	esize = kind == ARRAY ? (shape + 1) * esz[elem] : layout(elem, shape).size;
	for (int i = 0; i < N; i++) {
		for (int b = 0; b < esize; b++) filedata[i * esize + b] = 0x80 + (i * 37 + b * 11) % 128;
		if (kind == ARRAY) for (int k = 0; k <= shape; k++) putElem(filedata + i * esize + k * esz[elem], elem, i, k);
		else { Layout l = layout(elem, shape); for (int m = 0; m < l.n; m++) for (int k = 0; k < l.m[m].len; k++) putElem(filedata + i * esize + l.m[m].disp + k * esz[l.m[m].type], l.m[m].type, i, m * 5 + k); }
		memcpy(want[i], filedata + i * esize, esize);
	}
}
void mc_setup()
{
	mc_ghost_set(101, mc_arg("kind", -1) >= 0 ? mc_arg("kind", 0) : mc_choose(3, "kind"));
	kind = mc_ghost_get(101);
	if (kind == BASIC) { mc_ghost_set(102, mc_choose(10, "file type")); mc_ghost_set(104, mc_choose(4, "values")); }
	else mc_ghost_set(103, mc_choose(kind == ARRAY ? 3 : 4, "shape"));
	mc_ghost_set(105, 1);
	content();
	if (!nvals) { mc_discard(); }
	int f = mc_nc_file("grid.nc"), d = mc_nc_dim(f, "x", N), t = kind == BASIC ? nct[ft] : mc_nc_compound(f, "ctype", esize);
	int v = mc_nc_var(f, "z", t, 1, &d);
	mc_nc_data(f, v, filedata, N * (kind == BASIC ? ncs[ft] : esize));
	/* a file whose elements do not fit */
	f = mc_nc_file("other.nc"); d = mc_nc_dim(f, "x", N);
	t = mc_nc_compound(f, "ctype", kind == ARRAY ? esize + esz[elem] : esize + 8); mc_nc_var(f, "z", t, 1, &d);
	f = mc_nc_file("odd.nc"); d = mc_nc_dim(f, "x", N); t = mc_nc_compound(f, "ctype", esize + 1); mc_nc_var(f, "z", t, 1, &d);
	for (int i = 0; i < 8; i++) mc_numa_node(i, i % (int)mc_arg("nd", 1));
	if (mc_size() > 1 || mc_arg("det", 0)) mc_det(1);
	mc_cfg("mpi_multiple", !mc_arg("serial_mpi", 0));
}
static Grid* g; static int fg;
static unsigned char* member; // which bytes of an element are data
template<class A, class T> static void typed(int i, const char* acc, A (*get)(double*))
{
	T t; memcpy(&t, want[i], sizeof t);
	if (!convertible<A, T>(t)) return;
	A expect = (A)t; double pos[1] = {(double)i};
	A got = get(pos);
	MC_CHECK(memcmp(&got, &expect, sizeof got) == 0 || got == expect, "%s of element %d (kind %d, type %d, file type %d) returns %g, expected %g", acc, i, kind, elem, nct[ft], (double)got, (double)expect);
}
#define GET(n, C, T) static T get##n(double* p) { return api == 0 ? g->get##C(p) : api == 1 ? asagi_grid_get_##n(g, p, 0) : f90asagi_grid_get_##n(fg, p, 0); }
GET(byte, Byte, unsigned char) GET(int, Int, int) GET(long, Long, long) GET(float, Float, float) GET(double, Double, double)
template<class T> static void element(int i)
{
	typed<unsigned char, T>(i, "getByte", getbyte); typed<int, T>(i, "getInt", getint); typed<long, T>(i, "getLong", getlong); typed<float, T>(i, "getFloat", getfloat); typed<double, T>(i, "getDouble", getdouble);
	unsigned char buf[128]; memset(buf, 0xA5, sizeof buf); double pos[1] = {(double)i};
	if (api == 0) g->getBuf(buf + 32, pos); else if (api == 1) asagi_grid_get_buf(g, buf + 32, pos, 0); else f90asagi_grid_get_buf(fg, buf + 32, pos, 0);
	for (int b = 0; b < 32; b++) MC_CHECK(buf[b] == 0xA5 && buf[32 + esize + b] == 0xA5, "getBuf writes outside of the %d bytes of the value", esize);
	bool remote = mc_size() > 1;
	Layout l; if (kind == STRUCT) l = layout(elem, shape);
	for (int b = 0; b < esize; b++) {
		bool data = true;
		if (kind == STRUCT && remote) { data = false; for (int m = 0; m < l.n; m++) if (b >= l.m[m].disp && b < l.m[m].disp + l.m[m].len * esz[l.m[m].type]) data = true; }
		if (data) MC_CHECK(buf[32 + b] == want[i][b], "getBuf of element %d (kind %d, type %d, shape %d): byte %d of %d is wrong", i, kind, elem, shape, b, esize);
	}
}
static void param(const char* n, const char* v) { if (api == 0) g->setParam(n, v, 0); else if (api == 1) asagi_grid_set_param(g, n, v, 0); else f90asagi_grid_set_param(fg, n, v, 0); }
static void element_(int i) { switch (elem) { case 0: element<unsigned char>(i); break; case 1: element<int>(i); break; case 2: element<long>(i); break; case 3: element<float>(i); break; case 4: element<double>(i); break; } }
static Grid::Error open(const char* f, int l) { return api == 0 ? g->open(f, l) : api == 1 ? asagi_grid_open(g, f, l) : f90asagi_grid_open(fg, f, l); }
static void opener(int t, void*) { mc_set_cpu(t); Grid::Error e = open("grid.nc", 0); MC_CHECK(e == Grid::SUCCESS, "open fails with %d in thread %d", e, t); if (mc_arg("tlk", 0)) element_(t); }
void mc_main()
{
	content(); api = mc_arg("api", 0);
	Grid::Type t = (Grid::Type)elem; Layout l = layout(elem, shape);
	unsigned bl[3]; unsigned long dp[3]; Grid::Type tt[3]; for (int i = 0; i < l.n; i++) { bl[i] = l.m[i].len; dp[i] = l.m[i].disp; tt[i] = (Grid::Type)l.m[i].type; }
	if (mc_arg("mpi", 1) == 2) Grid::startCommThread(-1);
	if (api == 0) g = kind == BASIC ? Grid::create(t) : kind == ARRAY ? Grid::createArray(t) : Grid::createStruct(l.n, bl, dp, tt);
	if (api == 1) g = kind == BASIC ? asagi_grid_create(t) : kind == ARRAY ? asagi_grid_create_array(t) : asagi_grid_create_struct(l.n, bl, dp, tt);
	if (api == 2) fg = kind == BASIC ? f90asagi_grid_create(t) : kind == ARRAY ? f90asagi_grid_create_array(t) : f90asagi_grid_create_struct(l.n, (int*)bl, (long*)dp, tt);
	if (mc_size() > 1) { if (api == 0) g->setComm(); else if (api == 1) asagi_grid_set_comm(g, MPI_COMM_WORLD); else f90asagi_grid_set_comm(fg, MPI_Comm_c2f(MPI_COMM_WORLD)); }
	static const char* gt[] = {"FULL", "CACHE", "PASS_THROUGH"};
	param("GRID", gt[mc_arg("type", 0)]); param("BLOCK_SIZE_0", "2"); param("CACHE_SIZE", mc_arg("cs", 1) == 1 ? "1" : "3"); param("MPI_COMMUNICATION", mc_arg("mpi", 1) == 2 ? "THREAD" : "WINDOW");
	if (mc_arg("misfit", 0)) {
		Grid::Error e;
		if (kind == ARRAY && esz[elem] > 1) { e = open("odd.nc", 0); MC_CHECK(e == Grid::INVALID_VAR_SIZE, "array with elements of an invalid size: open returns %d", e); }
		e = open("grid.nc", 0); MC_CHECK(e == Grid::SUCCESS, "open fails with %d", e);
		if (kind != BASIC) { e = open("other.nc", 1); MC_CHECK(e == Grid::WRONG_SIZE, "level with elements of another size: open returns %d", e); }
	} else if (mc_arg("nt", 1) > 1) { g->setThreads(mc_arg("nt", 1)); mc_parallel(mc_arg("nt", 1), opener); }
	else { Grid::Error e = open("grid.nc", 0); MC_CHECK(e == Grid::SUCCESS, "open fails with %d", e); }
	unsigned vs = api == 0 ? g->getVarSize() : api == 1 ? asagi_grid_var_size(g) : f90asagi_grid_var_size(fg);
	MC_CHECK((int)vs == esize, "size of a value reported as %u, it is %d", vs, esize);
	for (int r = 0; r < mc_arg("rounds", 1); r++) for (int k = 0; k < N; k++) {
		int i = mc_rank() ? N - 1 - k : k;
		element_(i);
	}
	if (mc_rank() == 0) mc_outcome("kind %d", kind);
	if (api == 2) f90asagi_grid_close(fg); else if (api == 1) asagi_grid_close(g); else Grid::close(g);
	if (mc_arg("mpi", 1) == 2) Grid::stopCommThread();
}
