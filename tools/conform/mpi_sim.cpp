#include "common.h"
#include <mpi.h>
#include <stdio.h>
#include <string.h>
#include <stddef.h>
#include MC_TABLE
static long count;
static void EMIT(long v) { int r = mc_rank(); MC_CHECK(count < COUNT[r] && TABLE[r][count] == v, "value %ld is %ld, the real library gives %ld", count, v, TABLE[r][count]); count++; }
#include "mpi_body.h"
void mc_setup() {}
void mc_main() { program(mc_arg("part", 0), mc_rank(), mc_size()); MC_CHECK(count == COUNT[mc_rank()], "%ld values instead of %d", count, COUNT[mc_rank()]); }
