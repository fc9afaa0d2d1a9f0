/* replays the calls against the simulated library and compares every result */
#include "common.h"
#include <netcdf.h>
#include <stdio.h>
#include <string.h>
#include <limits>
#include MC_TABLE
static long count; static const long TOTAL = sizeof TABLE / sizeof *TABLE;
static void EMIT(long v) { MC_CHECK(count < TOTAL && TABLE[count] == v, "value %ld is %ld, the real library gives %ld", count, v, TABLE[count]); count++; }
#include "nc_body.h"
void mc_setup()
{
	int f = mc_nc_file("f.nc"), d[3], dn, dp;
	d[0] = mc_nc_dim(f, "zz", 2); d[1] = mc_nc_dim(f, "y", 4); d[2] = mc_nc_dim(f, "x", 2); dn = mc_nc_dim(f, "n", NV); dp = mc_nc_dim(f, "p", 4);
	for (int k = 0; k < NTYPES; k++) { char s[16]; sprintf(s, "v%d", k); unsigned char b[NV * 8]; int n = vals(TY[k], b); int v = mc_nc_var(f, s, TY[k], 1, &dn); mc_nc_data(f, v, b, NV * n); }
	int c[16]; for (int i = 0; i < 16; i++) c[i] = i * 10 + 1; mc_nc_data(f, mc_nc_var(f, "cube", NC_INT, 3, d), c, sizeof c);
	double s = 42; mc_nc_data(f, mc_nc_var(f, "scalar", NC_DOUBLE, 0, d), &s, 8); mc_nc_data(f, mc_nc_var(f, "text", NC_CHAR, 1, &dp), "text", 4);
	int t = mc_nc_compound(f, "pair", 16); struct { int a; int pad; double b; } p[4]; memset(p, 0, sizeof p); for (int i = 0; i < 4; i++) { p[i].a = i + 1; p[i].b = i * 0.5; } mc_nc_data(f, mc_nc_var(f, "pairs", t, 1, &dp), p, sizeof p);
}
void mc_main()
{
	int x, f; EMIT(nc_open("/nonexistent/file.nc", 0, &x)); nc_open("f.nc", 0, &f); program(f); EMIT(nc_close(f));
	MC_CHECK(count == TOTAL, "%ld values instead of %ld", count, TOTAL);
}
