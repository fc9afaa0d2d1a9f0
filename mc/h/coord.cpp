/* Coordinate axes: which grid point a position denotes, and the reported range and
 * spacing, through the C++, C and Fortran interfaces. */
#include "common.h"
#include "asagi.h"
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <netcdf.h>
using asagi::Grid;
/* the C interface (asagi.h declares it for C only) */
extern "C" {
unsigned int asagi_grid_dimensions(Grid*); double asagi_grid_min(Grid*, unsigned int); double asagi_grid_max(Grid*, unsigned int);
double asagi_grid_delta(Grid*, unsigned int, unsigned int); float asagi_grid_get_float(Grid*, const double*, unsigned int);
int f90asagi_grid_create(Grid::Type); void f90asagi_grid_set_param(int, const char*, const char*, int); Grid::Error f90asagi_grid_open(int, const char*, int);
int f90asagi_grid_dimensions(int); double f90asagi_grid_min(int, int); double f90asagi_grid_max(int, int); double f90asagi_grid_delta(int, int, int);
float f90asagi_grid_get_float(int, double*, int); void f90asagi_grid_close(int);
}
struct Axis { double off, step; int type; };
enum { TWO_D = -1, TEXT = -2 }; // variables that are named like the dimension, but do not hold its coordinates
static const Axis axes[] = { // 0: no coordinate variable
	{0, 1, 0}, {-1.5, 0.25, NC_DOUBLE}, {3.5, -0.5, NC_DOUBLE}, {1e6, 10, NC_FLOAT}, {7, -3, NC_INT}, {-0.002, 0.001, NC_DOUBLE}, {5, 0, NC_DOUBLE}, {-4e9, -1e9, NC_DOUBLE},
	{0, 1, TWO_D}, {0, 1, TEXT}};
enum { NAX = sizeof axes / sizeof *axes };
static int D, LV; static long N[3][4]; static int AX[3][4]; static bool vertex;
static float buf[512];
static const char* dn[] = {"a", "b", "c", "d"};
static double offOf(int l, int i) { return axes[AX[l][i]].off; }
static double stepOf(int l, int i) { return axes[AX[l][i]].step; }
static double valueOf(int l, long e) { return 1 + l * 1000 + e; }
void mc_setup()
{
	D = mc_arg("dims", 1); LV = mc_arg("levels", 1);
	int nax = mc_arg("axes", NAX);
	for (int l = 0; l < LV; l++) {
		char s[32]; sprintf(s, "level%d.nc", l);
		int f = mc_nc_file(s), ids[4]; long total = 1;
		for (int i = 0; i < D; i++) { // i in the order of the position vector, the reverse of the file
			N[l][i] = 1 + mc_choose(mc_arg("shapes", 4), "size"); AX[l][i] = mc_choose(nax, "axis");
			mc_ghost_set(100 + l * 10 + i, N[l][i]); mc_ghost_set(105 + l * 10 + i, AX[l][i]); total *= N[l][i];
		}
		for (int k = 0; k < D; k++) {
			int i = D - 1 - k; ids[k] = mc_nc_dim(f, dn[k], N[l][i]);
			const Axis& a = axes[AX[l][i]]; if (!a.type) continue;
			if (a.type == TWO_D) { // the other dimension is so long that (almost) no index is out of range
				char q[8]; sprintf(q, "q%d", k); int two[] = {ids[k], mc_nc_dim(f, q, 1ul << 58)}; mc_nc_var(f, dn[k], NC_DOUBLE, 2, two); continue;
			}
			if (a.type == TEXT) { mc_nc_var(f, dn[k], NC_CHAR, 1, &ids[k]); continue; }
			double d[8]; float fl[8]; int in[8];
			for (int j = 0; j < N[l][i]; j++) { d[j] = a.off + j * a.step; fl[j] = d[j]; in[j] = (int)d[j]; }
			int v = mc_nc_var(f, dn[k], a.type, 1, &ids[k]);
			if (a.type == NC_DOUBLE) mc_nc_data(f, v, d, N[l][i] * 8); else if (a.type == NC_FLOAT) mc_nc_data(f, v, fl, N[l][i] * 4); else mc_nc_data(f, v, in, N[l][i] * 4);
		}
		int v = mc_nc_var(f, "z", NC_FLOAT, D, ids);
		for (long e = 0; e < total; e++) buf[e] = valueOf(l, e);
		mc_nc_data(f, v, buf, total * 4);
	}
	mc_ghost_set(130, mc_choose(3, "value position")); // default, cell, vertex
	if (mc_arg("orders", 0)) mc_ghost_set(131, mc_choose(LV == 3 ? 6 : LV, "order the levels are opened in"));
}
struct Point { double x; int lo, hi; }; // indices allowed
static int points(int l, int i, Point* p)
{
	int n = 0; double off = offOf(l, i), st = stepOf(l, i); int last = N[l][i] - 1;
	if (last == 0 || st == 0) { // a single point or a constant axis: every position is that point (0 for a constant axis)
		static const double xs[] = {0, 1, -3, 1e300, -1e300, INFINITY, -INFINITY, NAN};
		for (int k = 0; k < 8; k++) { p[n].x = xs[k] + (k < 3 ? off : 0); p[n].lo = 0; p[n].hi = last; n++; }
		if (st == 0 && last > 0) return n;
		return n;
	}
	static const double fr[] = {-0.49, -0.25, 0, 0.25, 0.49, 0.5};
	for (int j = -2; j <= last + 2; j++) for (int k = 0; k < 6; k++) {
		p[n].x = off + (j + fr[k]) * st;
		int a = j, b = fr[k] == 0.5 ? j + 1 : j;
		if (a < 0) a = 0; if (a > last) a = last; if (b < 0) b = 0; if (b > last) b = last;
		p[n].lo = a; p[n].hi = b; n++;
	}
	int up = st > 0 ? last : 0, down = st > 0 ? 0 : last;
	Point q[] = {{1e300, up, up}, {-1e300, down, down}, {INFINITY, up, up}, {-INFINITY, down, down}, {NAN, 0, last}, {1e19, up, up}, {-1e19, down, down}};
	for (int k = 0; k < 7; k++) p[n++] = q[k];
	return n;
}
static bool close(double a, double b, double s) { return a == b || fabs(a - b) <= 1e-7 * s; }
static void range(int i, const char* api, double mn, double mx, double dl, int l, bool minmax)
{
	double off = offOf(l, i), st = stepOf(l, i); long n = N[l][i];
	if (n == 1) {
		MC_CHECK(isinf(dl), "%s: delta of dimension %d with a single point is %g", api, i, dl);
		if (minmax) MC_CHECK(isinf(mn) && mn < 0 && isinf(mx) && mx > 0, "%s: range of dimension %d with a single point is %g to %g", api, i, mn, mx);
		return;
	}
	double a = off, b = off + (n - 1) * st, lo = a < b ? a : b, hi = a < b ? b : a, s = fabs(st), half = vertex ? 0 : s / 2;
	MC_CHECK(close(dl, s, s), "%s: delta of dimension %d, level %d is %.12g, the file has %.12g", api, i, l, dl, s);
	if (!minmax) return;
	MC_CHECK(close(mn, lo - half, s), "%s: min of dimension %d is %.12g, expected %.12g (%s)", api, i, mn, lo - half, vertex ? "vertex" : "cell");
	MC_CHECK(close(mx, hi + half, s), "%s: max of dimension %d is %.12g, expected %.12g (%s)", api, i, mx, hi + half, vertex ? "vertex" : "cell");
}
static int api; static Grid* g; static int fg;
static float get(double* pos, int l) { return api == 0 ? g->getFloat(pos, l) : api == 1 ? asagi_grid_get_float(g, pos, l) : f90asagi_grid_get_float(fg, pos, l); }
static void sp(const char* n, const char* v, int l) { if (api == 2) f90asagi_grid_set_param(fg, n, v, l); else g->setParam(n, v, l); }
void mc_main()
{
	D = mc_arg("dims", 1); LV = mc_arg("levels", 1);
	for (int l = 0; l < LV; l++) for (int i = 0; i < D; i++) { N[l][i] = mc_ghost_get(100 + l * 10 + i); AX[l][i] = mc_ghost_get(105 + l * 10 + i); }
	vertex = mc_ghost_get(130) == 2; api = mc_arg("api", 0);
	if (api == 2) fg = f90asagi_grid_create(Grid::FLOAT); else g = Grid::create();
	static const char* gt[] = {"FULL", "CACHE", "PASS_THROUGH"};
	sp("GRID", gt[mc_arg("type", 0)], 0);
	if (mc_ghost_get(130)) sp("VALUE_POSITION", vertex ? "VERTEX_CENTERED" : "CELL_CENTERED", 0);
	static const int perm[6][3] = {{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}};
	for (int j = 0; j < LV; j++) {
		int l = mc_arg("orders", 0) ? perm[mc_ghost_get(131)][j] : j;
		char s[32]; sprintf(s, "level%d.nc", l);
		sp("BLOCK_SIZE_0", "2", l); sp("BLOCK_SIZE_1", "2", l); sp("CACHE_SIZE", "2", l);
		Grid::Error e = api == 2 ? f90asagi_grid_open(fg, s, l) : g->open(s, l);
		MC_CHECK(e == Grid::SUCCESS, "open fails with %d", e);
	}
	unsigned dims = api == 0 ? g->getDimensions() : api == 1 ? asagi_grid_dimensions(g) : f90asagi_grid_dimensions(fg);
	MC_CHECK((int)dims == D, "%u dimensions reported, the file has %d", dims, D);
	for (int l = 0; l < LV; l++) for (int i = 0; i < D; i++) {
		if (api == 0) range(i, "C++", g->getMin(i), g->getMax(i), g->getDelta(i, l), l, l == 0);
		if (api == 1) range(i, "C", asagi_grid_min(g, i), asagi_grid_max(g, i), asagi_grid_delta(g, i, l), l, l == 0);
		if (api == 2) range(i, "Fortran", f90asagi_grid_min(fg, i), f90asagi_grid_max(fg, i), f90asagi_grid_delta(fg, i, l), l, l == 0);
	}
	static Point p[4][64]; long n = 0;
	for (int l = 0; l < LV; l++) {
		int np[4] = {1, 1, 1, 1}; long all = 1;
		for (int i = 0; i < D; i++) { np[i] = points(l, i, p[i]); all *= np[i]; }
		for (long k = 0; k < all; k++) {
			double pos[4]; long r = k, lo[4], hi[4], c[4];
			for (int i = 0; i < D; i++) { Point& q = p[i][r % np[i]]; r /= np[i]; pos[i] = q.x; lo[i] = q.lo; hi[i] = q.hi; }
			if (D > 2 && mc_arg("thin", 0)) { int odd = 0; for (int i = 0; i < D; i++) odd += lo[i] != hi[i]; if (odd > 1) continue; }
			float v = get(pos, l); n++;
			long e = (long)v - 1 - l * 1000; bool in = e >= 0 && v == (float)valueOf(l, e); long t = e;
			for (int i = 0; i < D; i++) { c[i] = t % N[l][i]; t /= N[l][i]; in = in && c[i] >= lo[i] && c[i] <= hi[i]; }
			MC_CHECK(in && t == 0, "level %d: position (%g, %g, %g) returns %g, expected the point (%ld..%ld, %ld..%ld, %ld..%ld) of %ld x %ld x %ld", l, pos[0], D > 1 ? pos[1] : 0, D > 2 ? pos[2] : 0, v, lo[0], hi[0], D > 1 ? lo[1] : 0, D > 1 ? hi[1] : 0, D > 2 ? lo[2] : 0, D > 2 ? hi[2] : 0, N[l][0], D > 1 ? N[l][1] : 1, D > 2 ? N[l][2] : 1);
		}
	}
	mc_note("%ld positions", n);
	if (api == 2) f90asagi_grid_close(fg); else Grid::close(g);
}
