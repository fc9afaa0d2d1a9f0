/* The Fortran interface: threads create, use and close grids through handles. The
 * ghost table says which grid a live handle was created for. */
#include "common.h"
#include "asagi_f90.h"
#include "grid/grid.h"
static const int MAXH = 24;
static int nt, nops, maxlive;
static int sizes[] = {1, 4, 8, 4, 8};
struct Own { int id, type, kind; grid::Grid* p; };
/* ghost[id]: 0 free, otherwise 1 + tag of the thread that owns the handle */
static void created(int id, int t)
{
	MC_CHECK(id >= 0, "the handle %d is negative", id);
	MC_CHECK(id < MAXH, "limit of the harness");
	MC_CHECK(mc_ghost_get(id) == 0, "the new handle %d already denotes a live grid", id);
	mc_ghost_set(id, t + 1);
}
static void check(const Own& o)
{
	grid::Grid* p = grid::Grid::f2c(o.id);
	MC_CHECK(p == o.p, "handle %d does not denote the grid it was created for", o.id);
	MC_CHECK(p->c2f() == o.id, "the grid of handle %d says its handle is %d", o.id, p->c2f());
	if (o.kind == 3) return; // the size of a struct is known once it is opened
	int s = f90asagi_grid_var_size(o.id);
	MC_CHECK(s == sizes[o.type], "handle %d denotes a grid with values of %d bytes instead of %d", o.id, s, sizes[o.type]);
}
static void worker(int t, void*)
{
	Own own[4]; int n = 0;
	for (int i = 0; i < nops; i++) {
		int op = mc_choose(3, "create, use or close");
		if (op == 0) {
			if (n == maxlive) continue;
			Own& o = own[n++]; o.type = (t * 2 + i) % 5;
			int kind = mc_arg("kinds", 0) ? mc_choose(4, "kind") : t & 1; o.kind = kind;
			if (kind == 0) { o.id = f90asagi_grid_create((asagi_type)o.type); o.p = grid::Grid::f2c(o.id); }
			else if (kind == 1) { o.p = static_cast<grid::Grid*>(asagi::Grid::create((asagi::Grid::Type)o.type)); o.id = o.p->c2f(); }
			else if (kind == 2) { o.id = f90asagi_grid_create_array((asagi_type)o.type); o.p = grid::Grid::f2c(o.id); o.type = -1; }
			else { int bl = 1; long dis = 0; asagi_type ty = (asagi_type)o.type; o.id = f90asagi_grid_create_struct(1, &bl, &dis, &ty); o.p = grid::Grid::f2c(o.id); }
			created(o.id, t);
			mc_outcome("handle %d", o.id);
			if (o.type < 0) { MC_CHECK(grid::Grid::f2c(o.id) == o.p, "handle %d", o.id); o.type = 0; n--; mc_ghost_set(o.id, 0); f90asagi_grid_close(o.id); continue; }
		}
		for (int k = 0; k < n; k++) check(own[k]);
		if (op == 2 && n) {
			int k = n > 1 ? mc_choose(n, "which") : 0;
			mc_ghost_set(own[k].id, 0);
			if (own[k].id & 1) f90asagi_grid_close(own[k].id); else delete own[k].p;
			own[k] = own[--n];
			for (int j = 0; j < n; j++) check(own[j]);
		}
	}
	while (n) { check(own[--n]); mc_ghost_set(own[n].id, 0); f90asagi_grid_close(own[n].id); }
}
/* handles of opened grids return the values of their own files */
static bool near(double a, double b) { return a - b < 1e-6 && b - a < 1e-6; }
static void opened()
{
	int id[3]; double pos[1];
	for (int i = 0; i < 3; i++) {
		char f[16] = "f0.nc"; f[1] += i;
		id[i] = f90asagi_grid_create(asagi::Grid::FLOAT); created(id[i], 0);
		f90asagi_grid_set_threads(id[i], 1);
		f90asagi_grid_set_param(id[i], "BLOCK_SIZE_0", "2", 0);
		f90asagi_grid_set_param(id[i], "GRID", i == 1 ? "CACHE" : "FULL", 0);
		MC_CHECK(f90asagi_grid_open(id[i], f, 0) == asagi::Grid::SUCCESS, "open fails");
	}
	bool live[3] = {true, true, true};
	for (int n = 0; n < 3; n++) {
		for (int i = 0; i < 3; i++) if (live[i]) {
			for (int e = 0; e < 3 + i; e++) {
				pos[0] = e;
				MC_CHECK(f90asagi_grid_get_float(id[i], pos, 0) == 10 * i + e && f90asagi_grid_get_double(id[i], pos, 0) == 10 * i + e && f90asagi_grid_get_int(id[i], pos, 0) == 10 * i + e && f90asagi_grid_get_long(id[i], pos, 0) == 10 * i + e && f90asagi_grid_get_byte(id[i], pos, 0) == 10 * i + e, "handle %d returns a wrong value", id[i]);
				float b = -1; f90asagi_grid_get_buf(id[i], &b, pos, 0); MC_CHECK(b == 10 * i + e, "handle %d returns a wrong buffer", id[i]);
			}
			MC_CHECK(f90asagi_grid_dimensions(id[i]) == 1 && near(f90asagi_grid_min(id[i], 0), -0.5) && near(f90asagi_grid_max(id[i], 0), 2.5 + i) && f90asagi_grid_delta(id[i], 0, 0) == 1, "handle %d reports the extent of another grid", id[i]);
		}
		int k = mc_choose(3, "close"); if (!live[k]) mc_discard();
		mc_ghost_set(id[k], 0); live[k] = false; f90asagi_grid_close(id[k]);
		if (mc_choose(2, "recreate")) { int x = f90asagi_grid_create(asagi::Grid::INT); created(x, 1); f90asagi_grid_close(x); mc_ghost_set(x, 0); }
	}
}
void mc_setup()
{
	if (!mc_arg("open", 0)) return;
	for (int i = 0; i < 3; i++) {
		char f[16] = "f0.nc"; f[1] += i;
		int file = mc_nc_file(f); int d = mc_nc_dim(file, "x", 3 + i); int v = mc_nc_var(file, "z", 5, 1, &d);
		float b[8]; for (int e = 0; e < 8; e++) b[e] = 10 * i + e;
		mc_nc_data(file, v, b, (3 + i) * 4);
	}
}
void mc_main()
{
	nt = mc_arg("threads", 2); nops = mc_arg("ops", 2); maxlive = mc_arg("live", 2);
	if (mc_arg("open", 0)) opened(); else mc_parallel(nt, worker);
}
