// LD_PRELOAD: counts the file operations on files below one directory and ends
// the process just before (or in the middle of) the n-th one.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[512];
static size_t dirlen;
static volatile long count, die_at = -1;
static volatile int torn, on;
static volatile long *out;            // shared with the parent
static unsigned char watched[4096];
static char last[4096];

#define EXPORT __attribute__((visibility("default")))

EXPORT void crash_start(const char *d, long n, int t, long *shared) {
    snprintf(dir, sizeof dir, "%s", d);
    dirlen = strlen(dir);
    count = 0; die_at = n; torn = t; out = shared; on = 1;
    memset((void *)watched, 0, sizeof watched);
}
EXPORT long crash_stop(void) { on = 0; return count; }

static int under(const char *p) { return on && p && !strncmp(p, dir, dirlen); }
static int fdw(int fd) { return on && fd >= 0 && fd < 4096 && watched[fd]; }

// returns 1 when the operation is to be torn
static int op(int kind, int tearable, long size) {
    long n = __sync_fetch_and_add(&count, 1);
    if (out) { out[0] = n + 1; if (n < 16000) { out[16 + 2 * n] = kind; out[17 + 2 * n] = tearable ? size : 0; } }
    if (n == die_at) {
        if (!torn || !tearable) { if (out) out[1] = 1; _exit(77); }
        return 1;
    }
    return 0;
}
static long part(long size) {
    if (torn == 1) return size > 1 ? 1 : 0;
    if (torn == 2) return size / 2;
    if (torn == 3) return size - 1;
    return (size / 2) & ~511L;
}
static void dead(void) { if (out) out[1] = 2; _exit(77); }

#define REAL(name, T) static __typeof__(T) *real; if (!real) real = (__typeof__(T) *)dlsym(RTLD_NEXT, name)

static int opened(int fd, const char *p) { if (fd >= 0 && fd < 4096) watched[fd] = under(p); return fd; }
#define OPENBODY(NAME) \
    REAL(NAME, int (const char *, int, ...)); \
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    if (under(p) && (fl & (O_CREAT | O_TRUNC))) op(1, 0, 0); \
    return opened(real(p, fl, m), p);
EXPORT int open(const char *p, int fl, ...) { OPENBODY("open") }
EXPORT int open64(const char *p, int fl, ...) { OPENBODY("open64") }
#define OPENATBODY(NAME) \
    REAL(NAME, int (int, const char *, int, ...)); \
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    if (under(p) && (fl & (O_CREAT | O_TRUNC))) op(1, 0, 0); \
    return opened(real(d, p, fl, m), p);
EXPORT int openat(int d, const char *p, int fl, ...) { OPENATBODY("openat") }
EXPORT int openat64(int d, const char *p, int fl, ...) { OPENATBODY("openat64") }
EXPORT int close(int fd) { REAL("close", int (int)); if (fd >= 0 && fd < 4096) watched[fd] = 0; return real(fd); }

EXPORT ssize_t write(int fd, const void *b, size_t n) {
    REAL("write", ssize_t (int, const void *, size_t));
    if (fdw(fd) && op(2, 1, n)) { if (part(n) > 0) real(fd, b, part(n)); dead(); }
    return real(fd, b, n);
}
#define PWRITE(NAME, OFF) \
EXPORT ssize_t NAME(int fd, const void *b, size_t n, OFF o) { \
    REAL(#NAME, ssize_t (int, const void *, size_t, OFF)); \
    if (fdw(fd) && op(3, 1, n)) { if (part(n) > 0) real(fd, b, part(n), o); dead(); } \
    return real(fd, b, n, o); }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
EXPORT int fsync(int fd) { REAL("fsync", int (int)); if (fdw(fd)) op(4, 0, 0); return real(fd); }
EXPORT int fdatasync(int fd) { REAL("fdatasync", int (int)); if (fdw(fd)) op(4, 0, 0); return real(fd); }
EXPORT int ftruncate(int fd, off_t n) { REAL("ftruncate", int (int, off_t)); if (fdw(fd)) op(5, 0, 0); return real(fd, n); }
EXPORT int ftruncate64(int fd, off64_t n) { REAL("ftruncate64", int (int, off64_t)); if (fdw(fd)) op(5, 0, 0); return real(fd, n); }
EXPORT int unlink(const char *p) { REAL("unlink", int (const char *)); if (under(p)) op(6, 0, 0); return real(p); }
EXPORT int remove(const char *p) { REAL("remove", int (const char *)); if (under(p)) op(6, 0, 0); return real(p); }
EXPORT int unlinkat(int d, const char *p, int f) { REAL("unlinkat", int (int, const char *, int)); if (under(p)) op(6, 0, 0); return real(d, p, f); }
EXPORT int rename(const char *a, const char *b) { REAL("rename", int (const char *, const char *)); if (under(a) || under(b)) op(7, 0, 0); return real(a, b); }
