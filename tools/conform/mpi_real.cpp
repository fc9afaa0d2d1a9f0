/* mpi_real FILE PART: writes the results of each process to FILE<rank> */
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
static FILE* f;
static void EMIT(long v) { fprintf(f, "%ldl,\n", v); }
#include "mpi_body.h"
int main(int, char** argv)
{
	int p, rank, size; MPI_Init_thread(0, 0, MPI_THREAD_MULTIPLE, &p); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
	char s[256]; sprintf(s, "%s%d", argv[1], rank); f = fopen(s, "w"); program(atoi(argv[2]), rank, size); fclose(f); MPI_Finalize();
}
