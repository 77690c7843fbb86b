// Stand-in MPI header: every call goes to the simulator's message layer.
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include "simapi.h"
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, _count; } MPI_Status;
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_CHAR 1
#define MPI_INT 2
#define MPI_DOUBLE 3
#define MPI_FLOAT 4
#define MPI_LONG 5
#define MPI_UNSIGNED 6
#define MPI_UNSIGNED_LONG 7
#define MPI_LONG_LONG 8
#define MPI_BYTE 9
#define MPI_C_BOOL 10
#define MPI_LONG_LONG_INT 8
#define MPI_UINT64_T 7
#define MPI_INT64_T 5
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_IN_PLACE ((void*)-1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
static inline int MPI_Init(int*, char***) { return sim_mpi_init(); }
static inline int MPI_Initialized(int* f) { return sim_mpi_initialized(f); }
static inline int MPI_Finalized(int* f) { return sim_mpi_finalized(f); }
static inline int MPI_Comm_rank(MPI_Comm c, int* r) { return sim_mpi_rank(c, r); }
static inline int MPI_Comm_size(MPI_Comm c, int* s) { return sim_mpi_size(c, s); }
static inline int MPI_Finalize() { return sim_mpi_finalize(); }
static inline int MPI_Abort(MPI_Comm, int code) { return sim_mpi_abort(code); }
static inline double MPI_Wtime() { return sim_now(); }
static inline int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c) { return sim_mpi_coll(COLL_REDUCE, s, r, n, n, d, o, root, c); }
static inline int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return sim_mpi_coll(COLL_ALLREDUCE, s, r, n, n, d, o, 0, c); }
static inline int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm c) { return sim_mpi_coll(COLL_BCAST, b, b, n, n, d, 0, root, c); }
static inline int MPI_Barrier(MPI_Comm c) { return sim_mpi_coll(COLL_BARRIER, 0, 0, 0, 0, MPI_BYTE, 0, 0, c); }
static inline int MPI_Gather(const void* s, int n, MPI_Datatype d, void* r, int rn, MPI_Datatype, int root, MPI_Comm c) { return sim_mpi_coll(COLL_GATHER, s, r, n, rn, d, 0, root, c); }
static inline int MPI_Allgather(const void* s, int n, MPI_Datatype d, void* r, int rn, MPI_Datatype, MPI_Comm c) { return sim_mpi_coll(COLL_ALLGATHER, s, r, n, rn, d, 0, 0, c); }
static inline int MPI_Scatter(const void* s, int n, MPI_Datatype d, void* r, int rn, MPI_Datatype, int root, MPI_Comm c) { return sim_mpi_coll(COLL_SCATTER, s, r, n, rn, d, 0, root, c); }
static inline int MPI_Send(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { return sim_mpi_send(b, n, d, dst, tag, c); }
static inline int MPI_Recv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status* st) { return sim_mpi_recv(b, n, d, src, tag, c, st); }
#endif
