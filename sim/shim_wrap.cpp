// Linked into every node module.  The module is linked with -Wl,--wrap for each
// libc entry point below, so both the code under test and its private (static)
// libstdc++ reach the simulator instead of the operating system.
#include "simapi.h"
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/time.h>
#include <stdint.h>
#include <new>
// operator new of the node, so that the simulator sees the call site
void* operator new(size_t n) { void* p = sim_malloc_at(n ? n : 1, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_malloc_at(n ? n : 1, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_malloc_at(n ? n : 1, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_malloc_at(n ? n : 1, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
extern "C" {
void* __wrap_malloc(size_t n) { return sim_malloc_at(n, __builtin_return_address(0)); }
void* __wrap_calloc(size_t a, size_t b) { return sim_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return sim_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return sim_memalign(a, n); }
void* __wrap_memalign(size_t a, size_t n) { return sim_memalign(a, n); }
int   __wrap_posix_memalign(void** p, size_t a, size_t n) { *p = sim_memalign(a, n); return *p ? 0 : ENOMEM; }
void  __wrap_free(void* p) { sim_free(p); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }

FILE* __wrap_fopen(const char* p, const char* m) { return sim_fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
FILE* __wrap_fdopen(int fd, const char* m) { return sim_fdopen(fd, m); }
int   __wrap_fclose(FILE* f) { return sim_fclose(f); }
int   __wrap_fileno(FILE* f) { return sim_fileno(f); }
int   __wrap_open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(p, fl, m); }
int   __wrap_open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(p, fl, m); }
int   __wrap_creat(const char* p, int m) { return sim_open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
int   __wrap_close(int fd) { return sim_close(fd); }
ssize_t __wrap_read(int fd, void* b, size_t n) { return sim_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return sim_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { return sim_writev(fd, v, n); }
off_t __wrap_lseek(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
int __wrap_fstat(int fd, struct stat* st) { return sim_fstat(fd, st); }
int __wrap_fstat64(int fd, struct stat* st) { return sim_fstat(fd, st); }
int __wrap_stat(const char* p, struct stat* st) { return sim_stat(p, st); }
int __wrap_stat64(const char* p, struct stat* st) { return sim_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { return sim_stat(p, st); }
int __wrap_access(const char* p, int m) { return sim_access(p, m); }
int __wrap_unlink(const char* p) { return sim_unlink(p); }
int __wrap_remove(const char* p) { return sim_unlink(p); }
int __wrap_rename(const char* a, const char* b) { return sim_rename(a, b); }
int __wrap_mkdir(const char* p, mode_t m) { return sim_mkdir(p, m); }
int __wrap_ftruncate(int fd, off_t n) { return sim_ftruncate(fd, n); }
int __wrap_fsync(int fd) { return sim_fsync(fd); }
int __wrap_fdatasync(int fd) { return sim_fsync(fd); }
int __wrap_poll(struct pollfd* p, nfds_t n, int) { for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n; }
int __wrap_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
int __wrap_isatty(int) { errno = ENOTTY; return 0; }

void __wrap_exit(int c) { sim_exit(c); }
void __wrap__exit(int c) { sim__exit(c); }
void __wrap__Exit(int c) { sim__exit(c); }
void __wrap_quick_exit(int c) { sim__exit(c); }
void __wrap_abort(void) { sim_abort(); }
char* __wrap_getenv(const char* k) { return sim_getenv(k); }
char* __wrap_secure_getenv(const char* k) { return sim_getenv(k); }

time_t __wrap_time(time_t* t) { time_t v = (time_t)sim_now(); if (t) *t = v; return v; }
clock_t __wrap_clock(void) { return (clock_t)(sim_now() * 1e3); }
int __wrap_gettimeofday(struct timeval* tv, void*) { double s = sim_now(); tv->tv_sec = (time_t)s; tv->tv_usec = (suseconds_t)((s - (double)tv->tv_sec) * 1e6); return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec* tv) { double s = sim_now(); tv->tv_sec = (time_t)s; tv->tv_nsec = (long)((s - (double)tv->tv_sec) * 1e9); return 0; }
int __wrap_rand(void) { return sim_libc_rand(); }
void __wrap_srand(unsigned s) { sim_libc_srand(s); }
long __wrap_random(void) { return sim_libc_rand(); }
void __wrap_srandom(unsigned s) { sim_libc_srand(s); }
double __wrap_drand48(void) { return sim_libc_rand() / 2147483648.0; }
void __wrap_srand48(long s) { sim_libc_srand((unsigned)s); }
uint32_t __wrap_arc4random(void) { return sim_rand_u32(); }
int __wrap_getentropy(void* b, size_t n) { unsigned char* p = (unsigned char*)b; while (n--) *p++ = (unsigned char)sim_rand_u32(); return 0; }
ssize_t __wrap_getrandom(void* b, size_t n, unsigned) { __wrap_getentropy(b, n); return (ssize_t)n; }
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
void __wrap__ZNSt13random_device7_M_finiEv(void*) {}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return sim_rand_u32(); }
pid_t __wrap_getpid(void) { return sim_getpid(); }
int __wrap_usleep(unsigned) { return 0; }
unsigned __wrap_sleep(unsigned) { return 0; }

FILE* __wrap_stdout; FILE* __wrap_stderr; FILE* __wrap_stdin;
int __wrap_printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(__wrap_stdout, f, ap); va_end(ap); return r; }
int __wrap_vprintf(const char* f, va_list ap) { return vfprintf(__wrap_stdout, f, ap); }
int __wrap_puts(const char* s) { if (fputs(s, __wrap_stdout) < 0) return EOF; return fputc('\n', __wrap_stdout); }
int __wrap_putchar(int c) { return fputc(c, __wrap_stdout); }
void __wrap_perror(const char* s) { fprintf(__wrap_stderr, "%s: %s\n", s ? s : "", strerror(errno)); }

// Runs before the static libstdc++ sets up cout (init_priority 90).
__attribute__((constructor(1))) static void shim_early(void) {
  __wrap_stdin = sim_stdstream(0); __wrap_stdout = sim_stdstream(1); __wrap_stderr = sim_stdstream(2);
}

// --- deterministic virtual step counter and block coverage -------------------
unsigned char node_cov[1 << 17];
static unsigned long steps_since_seam_limit = ~0UL;
static unsigned long dummyctr; static unsigned long* stepctr = &dummyctr;
void __sanitizer_cov_trace_pc(void) {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&node_cov;
  node_cov[(pc >> 2) & ((1 << 17) - 1)] = 1;
  if (__builtin_expect(++*stepctr > steps_since_seam_limit, 0)) sim_hang();
}
void node_set_steplimit(unsigned long l) { steps_since_seam_limit = l; stepctr = sim_stepcounter(); }
extern void* __dso_handle;
void __cxa_finalize(void*);
void node_fini(void) { __cxa_finalize(&__dso_handle); }
}
