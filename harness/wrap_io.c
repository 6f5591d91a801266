/* --wrap=read,write,fread,mkdir: partial transfers, failures at a chosen call, and a pause that lets two creators collide. */
#include "vp.h"
#include <sys/stat.h>
#include <fcntl.h>
#include "wrap_io.h"
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); size_t __real_fread(void*, size_t, size_t, FILE*); int __real_mkdir(const char*, mode_t);
bool vio_on; unsigned vio_partial; long vio_fail_at; int vio_errno; long vio_calls, vio_failed; long vio_collisions; bool vio_noise; vp_rng_t vio_rng;
static bool fails(void) { long c = __atomic_add_fetch(&vio_calls, 1, __ATOMIC_RELAXED); if (vio_fail_at && c == vio_fail_at) { vio_failed++; errno = vio_errno; return true; } return false; }
static size_t part(size_t n) { return vio_partial && n > 1 && vp_rng_below(&vio_rng, 100) < vio_partial ? 1 + vp_rng_below(&vio_rng, n) : n; }
void vio_arm(unsigned partial, long fail_at, int err) { vp_rng_init(&vio_rng, vp_rand(), 3); vio_partial = partial; vio_fail_at = fail_at; vio_errno = err; vio_calls = vio_failed = 0; vio_on = true; }
/* a stream whose medium fails once so many bytes have been read */
long vio_bad_at = -1, vio_bad_hits; typedef struct { int fd; long at; } bad_t;
static ssize_t bad_read(void* c, char* b, size_t n) { bad_t* x = c; if (x->at >= vio_bad_at) { vio_bad_hits++; errno = EIO; return -1; } if ((long)n > vio_bad_at - x->at) n = (size_t)(vio_bad_at - x->at); ssize_t r = __real_read(x->fd, b, n); if (r > 0) x->at += r; return r; }
static int bad_seek(void* c, off64_t* o, int w) { bad_t* x = c; off64_t r = lseek64(x->fd, *o, w); if (r < 0) return -1; *o = r; x->at = (long)r; return 0; }
static int bad_close(void* c) { bad_t* x = c; int r = close(x->fd); free(x); return r; }
FILE* __real_fopen(const char*, const char*); FILE* __wrap_fopen(const char* p, const char* m) { if (vio_bad_at < 0 || m[0] != 'r') return __real_fopen(p, m); int fd = open(p, O_RDONLY); if (fd < 0) return NULL; bad_t* x = malloc(sizeof *x); x->fd = fd; x->at = 0; cookie_io_functions_t f = { bad_read, NULL, bad_seek, bad_close }; return fopencookie(x, "r", f); }
void vio_off(void) { vio_on = false; }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!vio_on) return __real_read(fd, b, n); if (fails()) return -1; return __real_read(fd, b, part(n)); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!vio_on) return __real_write(fd, b, n); if (fails()) return -1; return __real_write(fd, b, part(n)); }
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { if (!vio_on) return __real_fread(b, s, n, f); if (fails()) return n ? __real_fread(b, s, vp_rng_below(&vio_rng, n), f) : 0; return __real_fread(b, s, n, f); }
int __wrap_mkdir(const char* p, mode_t m) { static volatile size_t len; len = strlen(p); /* a path that does not end is reported here, in instrumented code */ if (vio_on && fails()) return -1; if (vio_noise) { if (vio_calls++ & 1) sched_yield(); } int r = __real_mkdir(p, m); if (r && errno == EEXIST) __atomic_add_fetch(&vio_collisions, 1, __ATOMIC_RELAXED); return r; }
