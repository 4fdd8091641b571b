// The few MPI calls behind the stand-in for mpi4py (MPI.py).
#include <mpi.h>
extern "C" {
int v_init(void) { int p, f; MPI_Initialized(&f); if (f) return 0; return MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &p); }
int v_rank(void) { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
int v_size(void) { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }
int v_bcast(void *b, int n, int root) { return MPI_Bcast(b, n, MPI_BYTE, root, MPI_COMM_WORLD); }
int v_barrier(void) { return MPI_Barrier(MPI_COMM_WORLD); }
int v_finalize(void) { return MPI_Finalize(); }
void v_abort(int rc) { MPI_Abort(MPI_COMM_WORLD, rc); }
}
