/* Simulated NetCDF library: virtual files, not thread-safe, faults on request.
 * Its behaviour is compared with the real library by tools/nc_conform. */
#include "rt.h"
#include "mc.h"
#include <netcdf.h>
#include <cmath>
#include <limits>
#include <climits>

struct Dim { std::string name; size_t len; };
struct Var { std::string name; int type; std::vector<int> dims; std::vector<char> data; bool virt = false; std::vector<u16> reads; std::vector<signed char> reader; };
struct Typ { std::string name; size_t size; };
struct File { std::string name; std::vector<Dim> dims; std::vector<Var> vars; std::vector<Typ> types; };
static std::vector<File> files;
struct Open { u8 used; int file; };
static Open opens[MAXRANK][16];
static long nreads[MAXRANK], nelems[MAXRANK];
static u64 reghash; static bool counting;
struct Fault { std::string name; int rank, budget, taken; };
static std::vector<Fault> faults;
static int myrank() { return cur ? cur->rank : 0; }

static size_t tsize(const File& f, int t) {
	switch (t) {
	case NC_BYTE: case NC_CHAR: case NC_UBYTE: return 1;
	case NC_SHORT: case NC_USHORT: return 2;
	case NC_INT: case NC_UINT: case NC_FLOAT: return 4;
	case NC_DOUBLE: case NC_INT64: case NC_UINT64: return 8;
	}
	int i = t - NC_FIRSTUSERTYPEID - 1;
	return i >= 0 && i < (int)f.types.size() ? f.types[i].size : 0;
}
bool lib_fault(const char* name) {
	int idx = -1;
	on_rt([&] { for (size_t i = 0; i < faults.size(); i++) if (!strncmp(faults[i].name.c_str(), name, faults[i].name.size()) && faults[i].rank == myrank() && faults[i].budget > 0) { idx = i; foot_only(mkkey(30, i), true); } });
	if (idx < 0) return false;
	if (!mc_choose(2, name)) return false;
	on_rt([&] { faults[idx].budget--; faults[idx].taken++; note("fault: %s fails", name); });
	return true;
}
static void enter(const char* what) {
	on_rt([&] { if (replaying_verbose && cfgi("trace_nc", 1)) note("%s", what); pseudo_access(mkkey(31, myrank()), true, what); });
}
static File* get(int id) {
	int s = id / 65536 - 1;
	if (id % 65536 || s < 0 || s >= 16 || !opens[myrank()][s].used) { if (cfgi("nc_strict", 1)) violate("netcdf misuse", "call with a file handle that is not open"); return 0; }
	return &files[opens[myrank()][s].file];
}
template<class S, class D> static bool conv1(S s, D& d) {
	d = (D)s;
	long double x = s;
	if (x != x) return std::is_floating_point<D>::value;
	if (std::is_integral<D>::value) {
		long double lo = std::is_signed<D>::value ? -std::pow(2.0L, sizeof(D) * 8 - 1) : 0, hi = std::is_signed<D>::value ? std::pow(2.0L, sizeof(D) * 8 - 1) - 1 : std::pow(2.0L, sizeof(D) * 8) - 1;
		return x >= lo && x <= hi;
	}
	if (sizeof(D) == 4) return !(std::isfinite((double)x) && (x > std::numeric_limits<float>::max() || x < std::numeric_limits<float>::lowest()));
	return true;
}
template<class D> static int getel(int t, const char* p, D& d) {
	switch (t) {
#define C(n, T) case n: { T v; memcpy(&v, p, sizeof v); return conv1(v, d) ? NC_NOERR : NC_ERANGE; }
	C(NC_BYTE, signed char) C(NC_UBYTE, unsigned char) C(NC_SHORT, short) C(NC_USHORT, unsigned short) C(NC_INT, int) C(NC_UINT, unsigned) C(NC_INT64, long long) C(NC_UINT64, unsigned long long) C(NC_FLOAT, float) C(NC_DOUBLE, double)
#undef C
	}
	return NC_ECHAR;
}
static int check(const File& f, const Var& v, const size_t* start, const size_t* count, const ptrdiff_t* stride) {
	auto len = [&](size_t i) { return f.dims[v.dims[i]].len; };
	auto cnt = [&](size_t i) { return count ? count[i] : 1; };
	size_t n = v.dims.size();
	if (stride) for (size_t i = 0; i < n; i++) if (stride[i] <= 0) return NC_ESTRIDE;
	for (size_t i = 0; i < n; i++) if (start[i] > len(i) || (start[i] == len(i) && cnt(i) > 0)) return NC_EINVALCOORDS;
	for (size_t i = 0; i < n; i++) if (cnt(i) > len(i) - start[i]) return NC_EEDGE;
	if (stride) for (size_t i = 0; i < n; i++) if (cnt(i) && start[i] + (cnt(i) - 1) * stride[i] >= len(i)) return NC_EINVALCOORDS;
	return NC_NOERR;
}
template<class F> static void iterate(const File& f, Var& v, const size_t* start, const size_t* count, const ptrdiff_t* stride, const ptrdiff_t* imap, F fn) {
	int n = v.dims.size();
	for (int i = 0; i < n; i++) if (count && count[i] == 0) return;
	std::vector<size_t> c(n, 0);
	while (true) {
		size_t src = 0; ptrdiff_t dst = 0;
		for (int i = 0; i < n; i++) src = src * f.dims[v.dims[i]].len + start[i] + c[i] * (stride ? stride[i] : 1);
		if (imap) for (int i = 0; i < n; i++) dst += c[i] * imap[i];
		else for (int i = 0; i < n; i++) dst = dst * (count ? count[i] : 1) + c[i];
		fn(src, dst);
		if (counting) { nelems[myrank()]++; if (src < v.reads.size()) { v.reads[src]++; v.reader[src] = std::max<int>(v.reader[src], myrank() * 8 + (cur ? cur->cpu & 7 : 0)); } }
		int i = n - 1;
		while (i >= 0 && ++c[i] >= (count ? count[i] : 1)) c[i--] = 0;
		if (i < 0) return;
	}
}
/* element of a variable; huge variables are not stored */
static const char* at(const Var& v, size_t src, size_t es, char* tmp) {
	if (!v.virt) return v.data.data() + src * es;
	double d = mc_nc_virtual_value(src); float f = d; int i = d; long long l = d; unsigned char c = i;
	switch (v.type) {
	case NC_DOUBLE: memcpy(tmp, &d, 8); break; case NC_FLOAT: memcpy(tmp, &f, 4); break;
	case NC_INT: memcpy(tmp, &i, 4); break; case NC_INT64: memcpy(tmp, &l, 8); break; default: *tmp = c; }
	return tmp;
}
template<class T> static int get_varm(const char* name, int id, int varid, const size_t* start, const size_t* count, const ptrdiff_t* stride, const ptrdiff_t* imap, T* out, bool whole = false) {
	if (lib_fault(name)) { enter(name); return NC_EHDFERR; }
	int r = NC_NOERR;
	enter(name);
	on_rt([&] {
		File* f = get(id); if (!f) { r = NC_EBADID; return; }
		if (varid < 0 || varid >= (int)f->vars.size()) { r = NC_ENOTVAR; return; }
		Var& v = f->vars[varid];
		std::vector<size_t> s0, c0;
		if (whole) { for (int d : v.dims) { s0.push_back(0); c0.push_back(f->dims[d].len); } start = s0.data(); count = c0.data(); }
		if (v.type > NC_MAX_ATOMIC_TYPE) { r = NC_EBADTYPE; return; }
		if (v.type == NC_CHAR) { r = NC_ECHAR; return; }
		if ((r = check(*f, v, start, count, stride))) return;
		size_t es = tsize(*f, v.type); char tmp[8];
		if (counting) nreads[myrank()]++;
		iterate(*f, v, start, count, stride, imap, [&](size_t src, ptrdiff_t dst) {
			check_range(out + dst, sizeof(T), true, name);
			T val; int e = getel(v.type, at(v, src, es, tmp), val);
			out[dst] = val; if (e) r = e;
		});
	});
	return r;
}
static int get_raw(const char* name, int id, int varid, const size_t* start, const size_t* count, const ptrdiff_t* stride, const ptrdiff_t* imap, void* out, bool whole = false) {
	if (lib_fault(name)) { enter(name); return NC_EHDFERR; }
	int r = NC_NOERR;
	enter(name);
	on_rt([&] {
		File* f = get(id); if (!f) { r = NC_EBADID; return; }
		if (varid < 0 || varid >= (int)f->vars.size()) { r = NC_ENOTVAR; return; }
		Var& v = f->vars[varid];
		std::vector<size_t> s0, c0;
		if (whole) { for (int d : v.dims) { s0.push_back(0); c0.push_back(f->dims[d].len); } start = s0.data(); count = c0.data(); }
		if (imap && v.type > NC_MAX_ATOMIC_TYPE) { r = NC_EMAPTYPE; return; }
		if ((r = check(*f, v, start, count, stride))) return;
		size_t es = tsize(*f, v.type); char tmp[8];
		if (counting) nreads[myrank()]++;
		iterate(*f, v, start, count, stride, imap, [&](size_t src, ptrdiff_t dst) {
			check_range((char*)out + dst * es, es, true, name);
			memcpy((char*)out + dst * es, at(v, src, es, tmp), es);
		});
	});
	return r;
}
extern "C" {
int nc_open(const char* path, int, int* id) {
	if (lib_fault("nc_open")) { enter("nc_open"); return 2; }
	int r = 2;
	enter("nc_open");
	on_rt([&] {
		for (size_t i = 0; i < files.size(); i++) if (files[i].name == path) {
			int s; for (s = 0; s < 16; s++) if (!opens[myrank()][s].used) break;
			if (s == 16) violate("limit", "too many open files");
			opens[myrank()][s].used = 1; opens[myrank()][s].file = i;
			check_range(id, sizeof *id, true, "nc_open"); *id = (s + 1) * 65536; r = NC_NOERR; return;
		}
	});
	return r;
}
int nc_close(int id) {
	int r = NC_NOERR; enter("nc_close");
	on_rt([&] { if (!get(id)) { r = NC_EBADID; return; } opens[myrank()][id / 65536 - 1].used = 0; });
	return r;
}
#define INQ(name, body) { int r = NC_NOERR; if (lib_fault(name)) { enter(name); return NC_EHDFERR; } enter(name); on_rt([&] { File* f = get(id); if (!f) { r = NC_EBADID; return; } body }); return r; }
#define OUT(p, v) do { if (p) { check_range(p, sizeof *(p), true, "nc_inq"); *(p) = (v); } } while (0)
int nc_inq_varid(int id, const char* n, int* v) {
	char what[96]; snprintf(what, sizeof what, "nc_inq_varid:%s", n);
	if (lib_fault(what)) { enter("nc_inq_varid"); return NC_ENOTVAR; }
	int r = NC_ENOTVAR; enter("nc_inq_varid");
	on_rt([&] { File* f = get(id); if (!f) { r = NC_EBADID; return; } for (size_t i = 0; i < f->vars.size(); i++) if (f->vars[i].name == n) { OUT(v, (int)i); r = NC_NOERR; } });
	return r;
}
#define VAR if (v < 0 || v >= (int)f->vars.size()) { r = NC_ENOTVAR; return; } Var& x = f->vars[v]; (void)x;
int nc_inq_varndims(int id, int v, int* n) INQ("nc_inq_varndims", VAR OUT(n, (int)x.dims.size());)
int nc_inq_vardimid(int id, int v, int* d) INQ("nc_inq_vardimid", VAR for (size_t i = 0; i < x.dims.size(); i++) OUT(d + i, x.dims[i]);)
int nc_inq_vartype(int id, int v, nc_type* t) INQ("nc_inq_vartype", VAR OUT(t, x.type);)
int nc_inq_varname(int id, int v, char* s) INQ("nc_inq_varname", VAR check_range(s, x.name.size() + 1, true, "nc_inq"); strcpy(s, x.name.c_str());)
int nc_inq_var(int id, int v, char* s, nc_type* t, int* n, int* d, int* na) INQ("nc_inq_var", VAR if (s) { check_range(s, x.name.size() + 1, true, "nc_inq"); strcpy(s, x.name.c_str()); } OUT(t, x.type); OUT(n, (int)x.dims.size()); if (d) for (size_t i = 0; i < x.dims.size(); i++) OUT(d + i, x.dims[i]); OUT(na, 0);)
#define DIM if (d < 0 || d >= (int)f->dims.size()) { r = NC_EBADDIM; return; } Dim& x = f->dims[d];
int nc_inq_dim(int id, int d, char* s, size_t* l) INQ("nc_inq_dim", DIM if (s) { check_range(s, x.name.size() + 1, true, "nc_inq"); strcpy(s, x.name.c_str()); } OUT(l, x.len);)
int nc_inq_dimlen(int id, int d, size_t* l) INQ("nc_inq_dimlen", DIM OUT(l, x.len);)
int nc_inq_dimname(int id, int d, char* s) INQ("nc_inq_dimname", DIM check_range(s, x.name.size() + 1, true, "nc_inq"); strcpy(s, x.name.c_str());)
int nc_inq_dimid(int id, const char* n, int* d) INQ("nc_inq_dimid", r = NC_EBADDIM; for (size_t i = 0; i < f->dims.size(); i++) if (f->dims[i].name == n) { OUT(d, (int)i); r = NC_NOERR; })
int nc_inq_type(int id, nc_type t, char* s, size_t* l) INQ("nc_inq_type", if (!tsize(*f, t)) { r = NC_EBADTYPE; return; } if (s) { check_range(s, 8, true, "nc_inq"); strcpy(s, "type"); } OUT(l, tsize(*f, t));)
#define GETS(sfx, T) \
int nc_get_var1_##sfx(int id, int v, const size_t* i, T* o) { return get_varm("nc_get_var1_" #sfx, id, v, i, 0, 0, 0, o); } \
int nc_get_vara_##sfx(int id, int v, const size_t* s, const size_t* c, T* o) { return get_varm("nc_get_vara_" #sfx, id, v, s, c, 0, 0, o); } \
int nc_get_vars_##sfx(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, T* o) { return get_varm("nc_get_vars_" #sfx, id, v, s, c, st, 0, o); } \
int nc_get_varm_##sfx(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, const ptrdiff_t* m, T* o) { return get_varm("nc_get_varm_" #sfx, id, v, s, c, st, m, o); } \
int nc_get_var_##sfx(int id, int v, T* o) { return get_varm("nc_get_var_" #sfx, id, v, 0, 0, 0, 0, o, true); }
GETS(uchar, unsigned char) GETS(schar, signed char) GETS(short, short) GETS(int, int) GETS(long, long) GETS(float, float) GETS(double, double) GETS(ushort, unsigned short) GETS(uint, unsigned int) GETS(longlong, long long) GETS(ulonglong, unsigned long long)
int nc_get_var1(int id, int v, const size_t* i, void* o) { return get_raw("nc_get_var1", id, v, i, 0, 0, 0, o); }
int nc_get_vara(int id, int v, const size_t* s, const size_t* c, void* o) { return get_raw("nc_get_vara", id, v, s, c, 0, 0, o); }
int nc_get_vars(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, void* o) { return get_raw("nc_get_vars", id, v, s, c, st, 0, o); }
int nc_get_varm(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, const ptrdiff_t* m, void* o) { return get_raw("nc_get_varm", id, v, s, c, st, m, o); }
int nc_get_var(int id, int v, void* o) { return get_raw("nc_get_var", id, v, 0, 0, 0, 0, o, true); }
const char* nc_strerror(int) { return "NetCDF error"; }

/* registration */
#define REG(...) do { u64 a_[] = {__VA_ARGS__}; for (u64 x : a_) reghash = Hash::mum(reghash ^ x, 0xA0761D6478BD642Full) + 1; } while (0)
static u64 hs(const char* s) { Hash h; h.mem(s, strlen(s)); return h.get(); }
int mc_nc_file(const char* n) { int r = 0; on_rt([&] { REG(hs(n)); File f; f.name = n; files.push_back(f); r = files.size() - 1; }); return r; }
int mc_nc_dim(int f, const char* n, unsigned long len) { int r = 0; on_rt([&] { REG(hs(n), len); Dim d; d.name = n; d.len = len; files[f].dims.push_back(d); r = files[f].dims.size() - 1; }); return r; }
int mc_nc_var(int f, const char* n, int type, int nd, const int* dims) {
	int r = 0;
	on_rt([&] {
		REG(hs(n), (u64)type, (u64)nd); for (int i = 0; i < nd; i++) REG((u64)dims[i]);
		Var v; v.name = n; v.type = type; v.dims.assign(dims, dims + nd);
		size_t k = 1; for (int i = 0; i < nd; i++) k *= files[f].dims[dims[i]].len;
		if (k > (size_t)1 << 24) { v.virt = true; REG(k); } else v.data.assign(k * tsize(files[f], type), 0); if (counting && !v.virt) { v.reads.assign(k, 0); v.reader.assign(k, -1); }
		files[f].vars.push_back(v); r = files[f].vars.size() - 1;
	});
	return r;
}
int mc_nc_compound(int f, const char* n, unsigned long size) { int r = 0; on_rt([&] { REG(hs(n), size); Typ t; t.name = n; t.size = size; files[f].types.push_back(t); r = NC_FIRSTUSERTYPEID + (int)files[f].types.size(); }); return r; }
void mc_nc_data(int f, int v, const void* d, unsigned long n) {
	on_rt([&] { Hash h; h.mem(d, n); REG(h.get()); auto& x = files[f].vars[v].data; if (n > x.size()) n = x.size(); memcpy(x.data(), d, n); });
}
void mc_nc_fault(const char* what, int rank, int budget) { on_rt([&] { Fault f; f.name = what; f.rank = rank; f.budget = budget; f.taken = 0; faults.push_back(f); REG(hs(what), (u64)rank); }); }
void mc_alloc_fault(const char* what, int rank, int budget) { mc_nc_fault(what, rank, budget); }
long mc_faults_taken(int rank) { long n = 0; on_rt([&] { for (size_t i = 0; i < faults.size(); i++) if (rank < 0 || faults[i].rank == rank) { n += faults[i].taken; foot_only(mkkey(30, i), false); } }); return n; }
long mc_nc_virtual_value(unsigned long e) { return 1 + (e * 0x9E3779B97F4A7C15ul >> 44); }
long mc_nc_reads(int k) { return k ? nelems[myrank()] : nreads[myrank()]; }
long mc_nc_elem_reads(int f, int v, long e) { return files[f].vars[v].reads.empty() ? -1 : files[f].vars[v].reads[e]; }
int mc_nc_elem_reader(int f, int v, long e) { return files[f].vars[v].reader.empty() ? -1 : files[f].vars[v].reader[e]; }
void mc_nc_reset_reads(void) { on_rt([&] { for (auto& f : files) for (auto& v : f.vars) std::fill(v.reads.begin(), v.reads.end(), 0); memset(nreads, 0, sizeof nreads); memset(nelems, 0, sizeof nelems); }); }
void mc_count_reads(void) { counting = true; }
int mc_nc_open_files(void) { int n = 0; for (int i = 0; i < 16; i++) n += opens[myrank()][i].used; return n; }
}
static void nreset() { files.clear(); faults.clear(); memset(opens, 0, sizeof opens); memset(nreads, 0, sizeof nreads); memset(nelems, 0, sizeof nelems); reghash = 0; counting = false; }
static void nhash(Hash& h) {
	h.mem(opens, sizeof opens); h.add(reghash);
	for (auto& f : faults) h.add(f.budget);
	if (counting) { h.mem(nreads, sizeof nreads); h.mem(nelems, sizeof nelems); for (auto& f : files) for (auto& v : f.vars) if (!v.reads.empty()) { h.mem(v.reads.data(), v.reads.size() * 2); h.mem(v.reader.data(), v.reader.size()); } }
}
static struct Reg { Reg() { SimMod m = {nreset, nhash, 0}; register_sim(m); } } reg;
