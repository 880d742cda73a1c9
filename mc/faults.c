/* Preloaded into the process of a check: lets planned reads of one watched file fail or come up short. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAX 4096
static int armed;
static dev_t dev;
static ino_t ino;
static int n_plan, n_reads, n_opens, n_failed, bad_open;
static int at[64], what[64];

int mcf_watch(const char *path)
{
    struct stat s;
    armed = 0;
    if (!path)
        return 0;
    if (stat(path, &s))
        return -1;
    dev = s.st_dev;
    ino = s.st_ino;
    n_plan = n_reads = n_opens = n_failed = 0;
    bad_open = -1;
    armed = 1;
    return 0;
}

/* the k-th read (from 0) of the watched file: 1: EIO, 2: one byte only, 3: half of it */
void mcf_plan(int k, int action)
{
    if (n_plan < 64) {
        at[n_plan] = k;
        what[n_plan++] = action;
    }
}

void mcf_plan_open(int k) { bad_open = k; }
int mcf_opens(void) { return n_opens; }
int mcf_reads(void) { return n_reads; }
int mcf_failed(void) { return n_failed; }

static int action(int fd)
{
    struct stat s;
    int i, k;
    if (!armed || fstat(fd, &s) || s.st_dev != dev || s.st_ino != ino)
        return 0;
    k = n_reads++;
    for (i = 0; i < n_plan; i++)
        if (at[i] == k) {
            if (what[i] == 1)
                n_failed++;
            return what[i];
        }
    return 0;
}

#define REAL(name) static typeof(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define CHECK(n) \
    int a = action(fd); \
    if (a == 1) { errno = EIO; return -1; } \
    if (a == 2 && n > 1) n = 1; \
    if (a == 3 && n > 1) n /= 2;

ssize_t read(int fd, void *b, size_t n)
{
    REAL(read);
    CHECK(n)
    return real(fd, b, n);
}

ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    REAL(pread);
    CHECK(n)
    return real(fd, b, n, o);
}

ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    REAL(pread64);
    CHECK(n)
    return real(fd, b, n, o);
}

ssize_t readv(int fd, const struct iovec *v, int n)
{
    REAL(readv);
    CHECK(n)
    return real(fd, v, n);
}

static int refuse(int dirfd, const char *path)
{
    struct stat s;
    if (!armed || fstatat(dirfd, path, &s, 0) || s.st_dev != dev || s.st_ino != ino)
        return 0;
    if (n_opens++ != bad_open)
        return 0;
    n_failed++;
    errno = EMFILE;
    return 1;
}

#define OPEN(name, dirfd, before, pass) \
int name(before const char *path, int flags, ...) \
{ \
    REAL(name); \
    va_list v; \
    int mode; \
    va_start(v, flags); \
    mode = va_arg(v, int); \
    va_end(v); \
    if (refuse(dirfd, path)) \
        return -1; \
    return real(pass path, flags, mode); \
}
#define NOTHING
#define COMMA ,

OPEN(open, AT_FDCWD, NOTHING, NOTHING)
OPEN(open64, AT_FDCWD, NOTHING, NOTHING)
OPEN(openat, dirfd, int dirfd COMMA, dirfd COMMA)
OPEN(openat64, dirfd, int dirfd COMMA, dirfd COMMA)
