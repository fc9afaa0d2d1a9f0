/* Interface of a scenario (compiled together with the code under test). */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int mc_rank(void);
int mc_size(void);
long mc_arg(const char* name, long dflt);            /* scenario parameter from the command line */
int mc_choose(int n, const char* what);              /* explore all of 0..n-1 */
void mc_fail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void mc_discard(void) __attribute__((noreturn));     /* this combination is not of interest */
void mc_cfg(const char* name, long value);           /* configure the simulated libraries (setup only) */
void mc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_set_cpu(int cpu);                            /* CPU of the calling thread */
void mc_numa_node(int cpu, int node);                /* topology */
void mc_use(unsigned long key, int write);           /* access to a named resource, for race detection */
void mc_det(int on);                                 /* 1: only one (round-robin) schedule is explored from here on */
void mc_gate(int id, int n, int det);                /* wait until n threads are here (implies no ordering of memory); then mc_det(det) unless negative */
void mc_yield(void);                                 /* scheduling point */
int mc_warnings(void);
void mc_log(int level, int rank, const char* text);
void mc_expect_error(int on);                        /* logError ends the execution instead of failing it */
long mc_live(const char* kinds);                     /* live objects of this rank: "mem","comm","group","type","win","req","file","all" */
void mc_hostname(int rank, const char* name);
/* ghost state: shared by all ranks, hashed, no synchronisation implied */
long mc_ghost_get(int i);
void mc_ghost_set(int i, long v);
long mc_ghost_add(int i, long v);
/* virtual NetCDF files */
int mc_nc_file(const char* name);
int mc_nc_dim(int file, const char* name, unsigned long len);
int mc_nc_var(int file, const char* name, int type, int ndims, const int* dims);
int mc_nc_compound(int file, const char* name, unsigned long size);
long mc_nc_virtual_value(unsigned long elem);         /* variables of more than 2^24 elements are not stored: this is their content */
void mc_nc_data(int file, int var, const void* data, unsigned long bytes);
void mc_nc_fault(const char* what, int rank, int budget); /* calls of that name may fail */
long mc_faults_taken(int rank);                      /* faults injected so far (-1: all ranks) */
long mc_nc_reads(int kind);                          /* 0: read calls, 1: elements read, of this rank since start */
long mc_nc_elem_reads(int file, int var, long elem); /* how often this element was read, all ranks */
int mc_nc_elem_reader(int file, int var, long elem); /* rank * 8 + cpu of the thread that read it (the largest one if there are several) */
void mc_nc_reset_reads(void);
int mc_nc_open_files(void);
void mc_count_reads(void);                           /* before creating variables */
long mc_mpi_count(const char* what);                 /* messages/RMA operations of this rank */
void mc_alloc_fault(const char* what, int rank, int budget);
/* the scenario */
void mc_setup(void);                                 /* runs first, alone, in rank 0 */
void mc_main(void);                                  /* runs in every rank */
#ifdef __cplusplus
}
#endif
#define MC_CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
#endif
