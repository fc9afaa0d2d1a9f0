/* io::NetCdfReader: every small shape, every requested block, every element type. */
#include "common.h"
#include "asagi.h"
#include "io/netcdfreader.h"
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <netcdf.h>

static int D; static long N[5], B[5], O[5];
static int coord[5];         // 0 none, 1 double ascending, 2 float descending, 3 int, 4 text, 5 scalar
static const char* names[] = {"da", "db", "dc", "dd", "de"};
static long total, btotal;
static unsigned char data[4096 * 16], out[4096 * 16 + 256];
static const int CAN = 64;
enum { FT_FLOAT, FT_UBYTE, FT_INT, FT_COMPOUND, FT_DOUBLE, FT_INT64, FT_N };
static int ftype; static size_t esize;
static double val(long e) { return 1 + e; }

void mc_setup()
{
	D = mc_arg("dims", 2);
	if (mc_arg("upto", 0)) { D = mc_choose(D + 1, "dimensions"); mc_ghost_set(100, D); }
	long smin = mc_arg("smin", 0), smax = mc_arg("smax", 3);
	total = 1;
	for (int i = 0; i < D; i++) { N[i] = smin + mc_choose(smax - smin + 1, "size"); mc_ghost_set(101 + i, N[i]); total *= N[i]; }
	ftype = mc_arg("ftype", -1) >= 0 ? mc_arg("ftype", 0) : mc_choose(FT_N, "file type");
	mc_ghost_set(106, ftype);
	int f = mc_nc_file("file.nc"), ids[5];
	for (int i = 0; i < D; i++) {
		ids[i] = mc_nc_dim(f, names[i], N[i]);
		int k = mc_arg("coords", 0) ? mc_choose(6, "coordinate variable") : 0;
		mc_ghost_set(110 + i, k);
		if (!k) continue;
		double dv[8]; float fv[8]; int iv[8];
		for (int j = 0; j < N[i]; j++) { dv[j] = -1.5 + 0.25 * j; fv[j] = 3.5f - 0.5f * j; iv[j] = 7 + 2 * j + (j > 0 && j < N[i] - 1); }
		int one = ids[i];
		if (k == 1) { int v = mc_nc_var(f, names[i], NC_DOUBLE, 1, &one); mc_nc_data(f, v, dv, N[i] * 8); }
		else if (k == 2) { int v = mc_nc_var(f, names[i], NC_FLOAT, 1, &one); mc_nc_data(f, v, fv, N[i] * 4); }
		else if (k == 3) { int v = mc_nc_var(f, names[i], NC_INT, 1, &one); mc_nc_data(f, v, iv, N[i] * 4); }
		else if (k == 4) mc_nc_var(f, names[i], NC_CHAR, 1, &one);
		else { int v = mc_nc_var(f, names[i], NC_DOUBLE, 0, 0); mc_nc_data(f, v, dv, 8); }
	}
	static const int nt[] = {NC_FLOAT, NC_UBYTE, NC_INT, 0, NC_DOUBLE, NC_INT64};
	static const int es[] = {4, 1, 4, 12, 8, 8};
	esize = es[ftype];
	int t = ftype == FT_COMPOUND ? mc_nc_compound(f, "ctype", 12) : nt[ftype];
	int v = mc_nc_var(f, "z", t, D, ids);
	for (long e = 0; e < total; e++) {
		unsigned char* p = data + e * esize; double x = val(e); float fl = x; int in = (int)x; long ln = (long)x;
		switch (ftype) {
		case FT_FLOAT: memcpy(p, &fl, 4); break;
		case FT_UBYTE: *p = (unsigned char)x; break;
		case FT_INT: memcpy(p, &in, 4); break;
		case FT_DOUBLE: memcpy(p, &x, 8); break;
		case FT_INT64: memcpy(p, &ln, 8); break;
		case FT_COMPOUND: memcpy(p, &fl, 4); memcpy(p + 4, &in, 4); memset(p + 8, (int)e, 4); break;
		}
	}
	mc_nc_data(f, v, data, total * esize);
}
static long nreads;
template<typename T> static double valueAt(const unsigned char* p) { T t; memcpy(&t, p, sizeof t); return (double)t; }
template<typename T> struct Get {
	static const bool raw = false;
	static size_t size() { return sizeof(T); }
	static bool same(const unsigned char* p, long e) { return valueAt<T>(p) == val(e); }
};
template<> struct Get<void> {
	static const bool raw = true;
	static size_t size() { return esize; }
	static bool same(const unsigned char* p, long e) { return memcmp(p, data + e * esize, esize) == 0; }
};
template<typename T> static void block(io::NetCdfReader& r, const char* what)
{
	size_t off[5] = {0, 0, 0, 0, 0}, sz[5] = {1, 1, 1, 1, 1}, s = Get<T>::size();
	for (int i = 0; i < D; i++) { off[i] = O[i]; sz[i] = B[i]; }
	memset(out, 0xA5, btotal * s + 2 * CAN);
	asagi::Grid::Error e = r.getBlock<T>(out + CAN, off, sz);
	MC_CHECK(e == asagi::Grid::SUCCESS, "getBlock<%s> fails with %d", what, e);
	nreads++;
	for (int i = 0; i < CAN; i++) MC_CHECK(out[i] == 0xA5 && out[CAN + btotal * s + i] == 0xA5, "getBlock<%s> of %ld elements writes outside of its buffer (at %d)", what, btotal, i);
	for (long b = 0; b < btotal; b++) { // row major
		long e = 0, k = b, c[5]; bool in = true;
		for (int i = D - 1; i >= 0; i--) { c[i] = O[i] + k % B[i]; k /= B[i]; if (c[i] >= N[i]) in = false; }
		if (!in) continue;
		for (int i = 0; i < D; i++) e = e * N[i] + c[i];
		MC_CHECK(Get<T>::same(out + CAN + b * s, e), "getBlock<%s>: element %ld of the block is not element %ld of the variable (offset %ld %ld %ld, block %ld %ld %ld, size %ld %ld %ld)", what, b, e, O[0], O[1], O[2], B[0], B[1], B[2], N[0], N[1], N[2]);
	}
}
static void header(io::NetCdfReader& r)
{
	MC_CHECK((int)r.dimensions() == D, "%u dimensions reported, the variable has %d", r.dimensions(), D);
	MC_CHECK(r.getVarSize() == esize, "size of an element reported as %u, it is %ld", r.getVarSize(), (long)esize);
	for (int i = 0; i < 5; i++) {
		unsigned long want = i < D ? N[i] : 1;
		MC_CHECK(r.getSize(i) == want, "size of dimension %d reported as %lu, it is %lu", i, r.getSize(i), want);
		double wo = 0, ws = 0; int k = i < D ? coord[i] : 0;
		if (i < D && N[i] == 0) continue;
		if (i < D) ws = 1;
		if (k == 1) { wo = -1.5; ws = 0.25; }
		if (k == 2) { wo = 3.5; ws = -0.5; }
		if (k == 3) { wo = 7; ws = N[i] > 1 ? 2 : 0; }
		if (k == 5) { wo = -1.5; ws = 0; }
		double o = r.getOffset(i), s = r.getScaling(i);
		if (k == 5) { MC_CHECK(isfinite(o) && !isnan(s), "invalid offset %g or spacing %g of a scalar coordinate variable", o, s); continue; }
		MC_CHECK(o == wo, "offset of dimension %d reported as %g, it is %g (coordinate variable kind %d)", i, o, wo, k);
		if (i < D && N[i] == 1) MC_CHECK(isinf(s), "spacing of dimension %d with one element is %g", i, s);
		else MC_CHECK(fabs(s - ws) < 1e-12, "spacing of dimension %d reported as %g, it is %g (coordinate variable kind %d)", i, s, ws, k);
	}
}
void mc_main()
{
	D = mc_arg("upto", 0) ? mc_ghost_get(100) : mc_arg("dims", 2);
	total = 1; for (int i = 0; i < D; i++) { N[i] = mc_ghost_get(101 + i); coord[i] = mc_ghost_get(110 + i); total *= N[i]; }
	ftype = mc_ghost_get(106);
	static const int es[] = {4, 1, 4, 12, 8, 8}; esize = es[ftype];
	{
		io::NetCdfReader r("file.nc", 0);
		MC_CHECK(!r.isOpen(), "open before it was opened");
		MC_CHECK(r.open("nothing") == asagi::Grid::VAR_NOT_FOUND && !r.isOpen(), "a missing variable is not reported");
	}
	{ io::NetCdfReader r("nofile.nc", 0); MC_CHECK(r.open("z") == asagi::Grid::NOT_OPEN && !r.isOpen(), "a missing file is not reported"); }
	{
		io::NetCdfReader r("file.nc", 0);
		asagi::Grid::Error err = r.open("z");
		if (D > MAX_DIMENSIONS) {
			MC_CHECK(err == asagi::Grid::UNSUPPORTED_DIMENSIONS && !r.isOpen(), "open of a variable with %d dimensions returns %d", D, err);
			mc_outcome("too many dimensions"); return;
		}
		MC_CHECK(err == asagi::Grid::SUCCESS && r.isOpen(), "open fails");
		header(r);
		if (total) {
			int bmax = mc_arg("bmax", 4); long blocks = 1; for (int i = 0; i < D; i++) blocks *= bmax;
			long first = mc_arg("split", 0) ? mc_choose(blocks, "block size") : 0, last = mc_arg("split", 0) ? first + 1 : blocks;
			for (long x = first; x < last; x++) {
				long k = x; btotal = 1; for (int i = 0; i < D; i++) { B[i] = 1 + k % bmax; k /= bmax; btotal *= B[i]; }
				for (long o = 0; o < total; o++) {
					long k = o; for (int i = 0; i < D; i++) { O[i] = k % N[i]; k /= N[i]; }
					block<void>(r, "void");
					if (ftype == FT_COMPOUND) continue;
					block<unsigned char>(r, "unsigned char"); block<int>(r, "int"); block<long>(r, "long"); block<float>(r, "float"); block<double>(r, "double");
				}
			}
		}
	}
	MC_CHECK(mc_live("file") == 0, "a file stays open");
	if (nreads) mc_outcome("%d dimensions", D);
}
