/* Preloaded into the executable under test: counts the operations that change files, and at a
 * chosen one kills the process (before, in the middle of, or after it) or makes it fail.
 *
 *   VP_LOG   file (mapped, shared): 8 bytes count, then one letter per operation
 *   VP_AT    number (from 1) of the operation concerned, 0 for none
 *   VP_MODE  before | torn | after | fail (ENOSPC once) | full (ENOSPC from there on) | short (half is written)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define CAP (1 << 20)
static volatile uint64_t *count;
static char *letters;
static uint64_t at;
static char mode[16];
static int ready;

static void setup(void)
{
    if (ready)
        return;
    ready = 1;
    const char *log = getenv("VP_LOG"), *a = getenv("VP_AT"), *m = getenv("VP_MODE");
    if (!log)
        return;
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_RDWR | O_CREAT, 0600);
    if (fd < 0)
        return;
    if (syscall(SYS_ftruncate, fd, CAP + 8) == 0) {
        void *p = mmap(0, CAP + 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) {
            count = p;
            letters = (char *)p + 8;
        }
    }
    syscall(SYS_close, fd);
    at = a ? strtoull(a, 0, 10) : 0;
    strncpy(mode, m ? m : "", sizeof mode - 1);
}

static void die(void)
{
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;)
        pause();
}

/* 0: go on; 1: this operation is the one concerned; 2: fail */
static int enter(char c)
{
    setup();
    if (!count)
        return 0;
    uint64_t k = ++*count;
    if (k <= CAP)
        letters[k - 1] = c;
    if (!at)
        return 0;
    if (k == at && !strcmp(mode, "before"))
        die();
    if ((k == at && !strcmp(mode, "fail")) || (k >= at && !strcmp(mode, "full")))
        return 2;
    return k == at;
}

static void leave(int r)
{
    if (r == 1 && (!strcmp(mode, "after") || !strcmp(mode, "torn")))
        die();
}

static int regular(int fd)
{
    struct stat s;
    return fstat(fd, &s) == 0 && S_ISREG(s.st_mode);
}

ssize_t write(int fd, const void *b, size_t n)
{
    if (!regular(fd))
        return syscall(SYS_write, fd, b, n);
    int r = enter('w');
    if (r == 2) {
        errno = ENOSPC;
        return -1;
    }
    if (r == 1 && (!strcmp(mode, "torn") || !strcmp(mode, "short")) && n > 1)
        n = 1 + (n * 7) / 13;
    ssize_t q = syscall(SYS_write, fd, b, n);
    leave(r);
    return q;
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!regular(fd))
        return syscall(SYS_writev, fd, v, n);
    int r = enter('w');
    if (r == 2) {
        errno = ENOSPC;
        return -1;
    }
    ssize_t q;
    if (r == 1 && (!strcmp(mode, "torn") || !strcmp(mode, "short")) && n > 0 && v[0].iov_len > 1)
        q = syscall(SYS_write, fd, v[0].iov_base, 1 + v[0].iov_len / 2);
    else
        q = syscall(SYS_writev, fd, v, n);
    leave(r);
    return q;
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    int r = enter('w');
    if (r == 2) {
        errno = ENOSPC;
        return -1;
    }
    if (r == 1 && (!strcmp(mode, "torn") || !strcmp(mode, "short")) && n > 1)
        n = 1 + (n * 7) / 13;
    ssize_t q = syscall(SYS_pwrite64, fd, b, n, o);
    leave(r);
    return q;
}

static int fails_open(int r)
{
    if (r == 2) {
        errno = ENOSPC;
        return 1;
    }
    return 0;
}

static int opens(int dir, const char *p, int fl, int m)
{
    int r = 0;
    if (fl & (O_CREAT | O_TRUNC)) {
        r = enter('o');
        if (fails_open(r))
            return -1;
    }
    int q = syscall(SYS_openat, dir, p, fl, m);
    leave(r);
    return q;
}

#define MODE_ARG                         \
    int m = 0;                           \
    if (fl & (O_CREAT | O_TMPFILE)) {    \
        va_list l;                       \
        va_start(l, fl);                 \
        m = va_arg(l, int);              \
        va_end(l);                       \
    }

int open(const char *p, int fl, ...) { MODE_ARG return opens(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE_ARG return opens(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE_ARG return opens(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE_ARG return opens(d, p, fl | O_LARGEFILE, m); }

#define SIMPLE(letter, call)     \
    int r = enter(letter);       \
    if (r == 2) {                \
        errno = ENOSPC;          \
        return -1;               \
    }                            \
    int q = call;                \
    leave(r);                    \
    return q;

int rename(const char *a, const char *b) { SIMPLE('r', syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0)) }
int renameat(int x, const char *a, int y, const char *b) { SIMPLE('r', syscall(SYS_renameat2, x, a, y, b, 0)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { SIMPLE('r', syscall(SYS_renameat2, x, a, y, b, f)) }
int unlink(const char *a) { SIMPLE('u', syscall(SYS_unlinkat, AT_FDCWD, a, 0)) }
int link(const char *a, const char *b) { SIMPLE('l', syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)) }
int linkat(int x, const char *a, int y, const char *b, int f) { SIMPLE('l', syscall(SYS_linkat, x, a, y, b, f)) }
int ftruncate(int fd, off_t n) { SIMPLE('t', syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off64_t n) { SIMPLE('t', syscall(SYS_ftruncate, fd, n)) }
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f)
{
    int r = enter('w');
    if (r == 2) {
        errno = ENOSPC;
        return -1;
    }
    if (r == 1 && (!strcmp(mode, "torn") || !strcmp(mode, "short")) && n > 1)
        n = n / 2;
    ssize_t q = syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
    leave(r);
    return q;
}
