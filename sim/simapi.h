// Seam functions exported by the simulator executable and used by node modules.
#ifndef SIMAPI_H
#define SIMAPI_H
#include <stddef.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>
#ifdef __cplusplus
extern "C" {
#endif
void* sim_malloc(size_t);
void* sim_malloc_at(size_t, void*);
void* sim_calloc(size_t, size_t);
void* sim_realloc(void*, size_t);
void* sim_memalign(size_t, size_t);
void  sim_free(void*);
FILE* sim_fopen(const char*, const char*);
FILE* sim_fdopen(int, const char*);
int   sim_fclose(FILE*);
int   sim_fileno(FILE*);
int   sim_open(const char*, int, int);
int   sim_close(int);
ssize_t sim_read(int, void*, size_t);
ssize_t sim_write(int, const void*, size_t);
ssize_t sim_writev(int, const struct iovec*, int);
off_t sim_lseek(int, off_t, int);
int   sim_fstat(int, struct stat*);
int   sim_stat(const char*, struct stat*);
int   sim_access(const char*, int);
int   sim_unlink(const char*);
int   sim_rename(const char*, const char*);
int   sim_mkdir(const char*, int);
int   sim_ftruncate(int, off_t);
int   sim_fsync(int);
void  sim_exit(int) __attribute__((noreturn));
void  sim__exit(int) __attribute__((noreturn));
void  sim_abort(void) __attribute__((noreturn));
void  sim_hang(void) __attribute__((noreturn));
char* sim_getenv(const char*);
FILE* sim_stdstream(int);
double sim_now(void);
unsigned sim_rand_u32(void);
void sim_note(const char*);
int   sim_libc_rand(void);
void  sim_libc_srand(unsigned);
int   sim_getpid(void);
void  sim_emit(const char*, size_t);
void  sim_draw(double);           // one RNG value handed to the code under test
int   sim_nops(void);
const char* sim_op(int);          // script line
void  sim_opmark(int);            // start of script op k
unsigned long* sim_stepcounter(void);
int sim_mpi_init(void);
int sim_mpi_initialized(int*);
int sim_mpi_finalized(int*);
int sim_mpi_rank(int, int*);
int sim_mpi_size(int, int*);
int sim_mpi_finalize(void);
int sim_mpi_abort(int);
int sim_mpi_coll(int kind, const void* sb, void* rb, int count, int rcount, int dtype, int op, int root, int comm);
int sim_mpi_send(const void*, int, int, int, int, int);
int sim_mpi_recv(void*, int, int, int, int, int, void*);
#ifdef __cplusplus
}
#endif
enum { COLL_REDUCE=1, COLL_ALLREDUCE, COLL_BCAST, COLL_BARRIER, COLL_GATHER, COLL_ALLGATHER, COLL_SCATTER };
#endif
