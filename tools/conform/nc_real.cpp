/* writes the table of results of the real library to standard output */
#include <netcdf.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits>
static long count;
static void EMIT(long v) { printf("%ldl,%s", v, ++count % 8 ? "" : "\n"); }
#include "nc_body.h"
#define OK(x) do { int r_ = (x); if (r_) { fprintf(stderr, "%s: %s\n", #x, nc_strerror(r_)); exit(1); } } while (0)
int main(int, char** argv)
{
	int f, d[3], dn, dp, v[NTYPES], cube, scalar, text, pairs, t;
	OK(nc_create(argv[1], NC_NETCDF4, &f));
	OK(nc_def_dim(f, "zz", 2, &d[0])); OK(nc_def_dim(f, "y", 4, &d[1])); OK(nc_def_dim(f, "x", 2, &d[2])); OK(nc_def_dim(f, "n", NV, &dn)); OK(nc_def_dim(f, "p", 4, &dp));
	for (int k = 0; k < NTYPES; k++) { char s[16]; sprintf(s, "v%d", k); OK(nc_def_var(f, s, TY[k], 1, &dn, &v[k])); }
	OK(nc_def_var(f, "cube", NC_INT, 3, d, &cube)); OK(nc_def_var(f, "scalar", NC_DOUBLE, 0, 0, &scalar)); OK(nc_def_var(f, "text", NC_CHAR, 1, &dp, &text));
	OK(nc_def_compound(f, 16, "pair", &t)); OK(nc_insert_compound(f, t, "a", 0, NC_INT)); OK(nc_insert_compound(f, t, "b", 8, NC_DOUBLE)); OK(nc_def_var(f, "pairs", t, 1, &dp, &pairs));
	OK(nc_enddef(f));
	for (int k = 0; k < NTYPES; k++) { unsigned char b[NV * 8]; vals(TY[k], b); OK(nc_put_var(f, v[k], b)); }
	int c[16]; for (int i = 0; i < 16; i++) c[i] = i * 10 + 1; OK(nc_put_var(f, cube, c));
	double s = 42; OK(nc_put_var(f, scalar, &s)); OK(nc_put_var(f, text, "text"));
	struct { int a; int pad; double b; } p[4]; memset(p, 0, sizeof p); for (int i = 0; i < 4; i++) { p[i].a = i + 1; p[i].b = i * 0.5; } OK(nc_put_var(f, pairs, p));
	OK(nc_close(f));
	printf("static const long TABLE[] = {\n");
	int x; EMIT(nc_open("/nonexistent/file.nc", NC_NOWRITE, &x)); OK(nc_open(argv[1], NC_NOWRITE, &f)); program(f); EMIT(nc_close(f));
	printf("};\n"); fprintf(stderr, "%ld\n", count);
}
