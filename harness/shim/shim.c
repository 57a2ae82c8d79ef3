/* Preloaded libc shim: lets the harness decide schedules, readdir orders and faults of the code
 * under test from outside, without touching /repo.
 *
 * In-process control: dsv_set_hook(h); h(op, path, arg) is called before each intercepted call.
 *   ret == 0: proceed;  ret > 0: fail with errno = ret;  ret < 0: op specific (READ/WRITE: at most
 *   -ret bytes; READDIR: the name is consumed silently is never used).
 * Out-of-process control (for the index tool): DSV_FAULTS="op|path|nth|ret;..." where path is an
 *   exact path ("<stdout>" for fd 1, "*" for any); nth counts matching calls from 1, 0 = every call.
 *   DSV_SLOW: microseconds every opening of a file takes.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ = 2, OP_STAT = 3, OP_READLINK = 4, OP_READDIR = 5, OP_DIRINIT = 6,
       OP_WRITE = 7 };

typedef int (*hook_t)(int op, const char *path, long arg);
static _Atomic(hook_t) g_hook;
static __thread int in_hook;

void dsv_set_hook(hook_t h) { atomic_store(&g_hook, h); }

#define MAXF 16
static struct { int op; char path[512]; int nth; int ret; int seen; } faults[MAXF];
static int nfaults;
static int slow;
static char fault_log[512];
static pthread_mutex_t fmu = PTHREAD_MUTEX_INITIALIZER;

static int (*r_open)(const char *, int, ...);
static int (*r_open64)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_openat64)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_readv)(int, const struct iovec *, int);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_fstat)(int, struct stat *);
static int (*r_fstat64)(int, struct stat64 *);
static int (*r_fstatat)(int, const char *, struct stat *, int);
static int (*r_fstatat64)(int, const char *, struct stat64 *, int);
static int (*r_statx)(int, const char *, int, unsigned, struct statx *);
static ssize_t (*r_readlinkat)(int, const char *, char *, size_t);
static ssize_t (*r_readlink)(const char *, char *, size_t);
static struct dirent *(*r_readdir)(DIR *);
static struct dirent64 *(*r_readdir64)(DIR *);
static int (*r_closedir)(DIR *);

static int fault_hook(int op, const char *path, long arg)
{
    (void)arg;
    int ret = 0;
    if (slow && op == OP_OPEN) usleep(slow);
    pthread_mutex_lock(&fmu);
    for (int i = 0; i < nfaults; i++) {
        if (faults[i].op != op) continue;
        if (strcmp(faults[i].path, "*") && strcmp(faults[i].path, path)) continue;
        faults[i].seen++;
        if (faults[i].nth == 0 || faults[i].nth == faults[i].seen) {
            ret = faults[i].ret;
            if (fault_log[0] && r_open) {
                int fd = r_open(fault_log, O_WRONLY | O_CREAT | O_APPEND, 0600);
                if (fd >= 0) {
                    char b[600];
                    int n = snprintf(b, sizeof b, "%d|%s|%d\n", op, path, ret);
                    if (r_write(fd, b, n) < 0) { }
                    close(fd);
                }
            }
            break;
        }
    }
    pthread_mutex_unlock(&fmu);
    return ret;
}

__attribute__((constructor)) static void init(void)
{
#define L(n) r_##n = dlsym(RTLD_NEXT, #n)
    L(open); L(open64); L(openat); L(openat64); L(read); L(pread); L(readv); L(write); L(writev);
    L(fstat); L(fstat64); L(fstatat); L(fstatat64); L(statx); L(readlinkat); L(readlink);
    L(readdir); L(readdir64); L(closedir);
    const char *lg = getenv("DSV_FAULT_LOG");
    if (lg) snprintf(fault_log, sizeof fault_log, "%s", lg);
    const char *sl = getenv("DSV_SLOW");
    if (sl) { slow = atoi(sl); atomic_store(&g_hook, fault_hook); }
    const char *s = getenv("DSV_FAULTS");
    if (!s) return;
    char *dup = strdup(s), *save = 0;
    for (char *t = strtok_r(dup, ";", &save); t && nfaults < MAXF; t = strtok_r(0, ";", &save)) {
        char *a = strchr(t, '|'); if (!a) continue; *a++ = 0;
        char *b = strchr(a, '|'); if (!b) continue; *b++ = 0;
        char *c = strchr(b, '|'); if (!c) continue; *c++ = 0;
        faults[nfaults].op = atoi(t);
        snprintf(faults[nfaults].path, sizeof faults[0].path, "%s", a);
        faults[nfaults].nth = atoi(b);
        faults[nfaults].ret = atoi(c);
        nfaults++;
    }
    free(dup);
    if (nfaults) atomic_store(&g_hook, fault_hook);
}

static int fd_path(int fd, char *buf, size_t n)
{
    char p[64];
    if (fd == AT_FDCWD) return getcwd(buf, n) ? 0 : -1;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t k = r_readlink(p, buf, n - 1);
    if (k < 0) return -1;
    buf[k] = 0;
    return 0;
}

static int call(int op, int dirfd, const char *name, long arg)
{
    hook_t h = atomic_load(&g_hook);
    if (!h || in_hook) return 0;
    char buf[8192];
    int e = errno;
    in_hook = 1;
    int r = 0;
    if (name && name[0] == '/') {
        snprintf(buf, sizeof buf, "%s", name);
    } else {
        if (!name && op == OP_WRITE && dirfd == 1) strcpy(buf, "<stdout>");
        else if (fd_path(dirfd, buf, 4096) < 0) { in_hook = 0; errno = e; return 0; }
        if (name && strcmp(name, ".") && name[0]) {
            size_t l = strlen(buf);
            snprintf(buf + l, sizeof buf - l, "%s%s", l && buf[l - 1] == '/' ? "" : "/", name);
        }
    }
    r = h(op, buf, arg);
    in_hook = 0;
    errno = e;
    return r;
}

/* the highest descriptor seen: descriptors are given out lowest first, so it tells how many there were */
static atomic_int g_maxfd = -1;
void dsv_maxfd_reset(void) { atomic_store(&g_maxfd, -1); }
int dsv_maxfd(void) { return atomic_load(&g_maxfd); }
static int got(int fd)
{
    int m = atomic_load(&g_maxfd);
    while (fd > m && !atomic_compare_exchange_weak(&g_maxfd, &m, fd)) { }
    return fd;
}

/* threads that were started and run; how many at most at the same time */
static int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static atomic_int g_threads, g_maxthreads;
void dsv_threads_reset(void) { atomic_store(&g_maxthreads, atomic_load(&g_threads)); }
int dsv_threads(void) { return atomic_load(&g_threads); }
int dsv_maxthreads(void) { return atomic_load(&g_maxthreads); }
struct begun { void *(*f)(void *); void *arg; };
static void *begin(void *x)
{
    struct begun b = *(struct begun *)x;
    free(x);
    void *r = b.f(b.arg);
    atomic_fetch_sub(&g_threads, 1);
    return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg)
{
    if (!r_pthread_create) r_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    struct begun *b = malloc(sizeof *b);
    b->f = f; b->arg = arg;
    int n = atomic_fetch_add(&g_threads, 1) + 1, m = atomic_load(&g_maxthreads);
    while (n > m && !atomic_compare_exchange_weak(&g_maxthreads, &m, n)) { }
    int r = r_pthread_create(t, at, begin, b);
    if (r) { atomic_fetch_sub(&g_threads, 1); free(b); }
    return r;
}

/* bytes read from what the hook says is its own */
static atomic_long g_bytes;
static __thread int counted;
void dsv_counted(void) { counted = 1; }
long dsv_bytes(void) { return atomic_load(&g_bytes); }
void dsv_bytes_reset(void) { atomic_store(&g_bytes, 0); }
static ssize_t had(ssize_t n) { if (counted && n > 0) atomic_fetch_add(&g_bytes, n); counted = 0; return n; }

#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; \
    va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
#define FAIL(r, v) if ((r) > 0) { errno = (r); return (v); }

int open(const char *p, int flags, ...)
{ GETMODE int r = call(OP_OPEN, AT_FDCWD, p, flags); FAIL(r, -1) return got(r_open(p, flags, mode)); }
int open64(const char *p, int flags, ...)
{ GETMODE int r = call(OP_OPEN, AT_FDCWD, p, flags); FAIL(r, -1) return got(r_open64(p, flags, mode)); }
int openat(int d, const char *p, int flags, ...)
{ GETMODE int r = call(OP_OPEN, d, p, flags); FAIL(r, -1) return got(r_openat(d, p, flags, mode)); }
int openat64(int d, const char *p, int flags, ...)
{ GETMODE int r = call(OP_OPEN, d, p, flags); FAIL(r, -1) return got(r_openat64(d, p, flags, mode)); }

ssize_t read(int fd, void *b, size_t n)
{ int r = call(OP_READ, fd, 0, n); FAIL(r, -1) if (r < 0 && (size_t)-r < n) n = -r; return had(r_read(fd, b, n)); }
ssize_t pread(int fd, void *b, size_t n, off_t o)
{ int r = call(OP_READ, fd, 0, n); FAIL(r, -1) if (r < 0 && (size_t)-r < n) n = -r; return had(r_pread(fd, b, n, o)); }
ssize_t readv(int fd, const struct iovec *v, int c)
{ int r = call(OP_READ, fd, 0, c); FAIL(r, -1) return had(r_readv(fd, v, c)); }
ssize_t write(int fd, const void *b, size_t n)
{
    if (fd == 2) return r_write(fd, b, n);
    int r = call(OP_WRITE, fd, 0, n); FAIL(r, -1)
    if (r < 0 && (size_t)-r < n) n = -r;
    return r_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (fd == 2) return r_writev(fd, v, c);
    int r = call(OP_WRITE, fd, 0, c); FAIL(r, -1)
    return r_writev(fd, v, c);
}

int fstat(int fd, struct stat *s)
{ int r = call(OP_STAT, fd, 0, 0); FAIL(r, -1) return r_fstat(fd, s); }
int fstat64(int fd, struct stat64 *s)
{ int r = call(OP_STAT, fd, 0, 0); FAIL(r, -1) return r_fstat64(fd, s); }
int fstatat(int d, const char *p, struct stat *s, int fl)
{ int r = call(OP_STAT, d, p, fl); FAIL(r, -1) return r_fstatat(d, p, s, fl); }
int fstatat64(int d, const char *p, struct stat64 *s, int fl)
{ int r = call(OP_STAT, d, p, fl); FAIL(r, -1) return r_fstatat64(d, p, s, fl); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *s)
{ int r = call(OP_STAT, d, p, fl); FAIL(r, -1) return r_statx(d, p, fl, m, s); }

ssize_t readlinkat(int d, const char *p, char *b, size_t n)
{ int r = call(OP_READLINK, d, p, n); FAIL(r, -1) return r_readlinkat(d, p, b, n); }
ssize_t readlink(const char *p, char *b, size_t n)
{ int r = call(OP_READLINK, AT_FDCWD, p, n); FAIL(r, -1) return r_readlink(p, b, n); }

/* readdir: on the first call for a DIR all entries are loaded; OP_DIRINIT's result says what to do
 * with them: bit 0 = deliver in an order chosen by the seed in bits 2.., bit 1 = hide the types. */
struct dstate { DIR *d; struct dirent64 *v; int n, i; struct dstate *next; };
static struct dstate *dlist;
static pthread_mutex_t dmu = PTHREAD_MUTEX_INITIALIZER;

static int cmpname(const void *a, const void *b)
{ return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }

static struct dstate *dget(DIR *d)
{
    pthread_mutex_lock(&dmu);
    struct dstate *s;
    for (s = dlist; s; s = s->next) if (s->d == d) break;
    pthread_mutex_unlock(&dmu);
    if (s) return s;
    int r = call(OP_DIRINIT, dirfd(d), 0, 0);
    s = calloc(1, sizeof *s);
    s->d = d;
    int cap = 0;
    for (;;) {
        struct dirent64 *e = r_readdir64(d);
        if (!e) break;
        if (s->n == cap) { cap = cap ? cap * 2 : 16; s->v = realloc(s->v, cap * sizeof *s->v); }
        memset(&s->v[s->n], 0, sizeof *s->v);
        memcpy(&s->v[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        s->n++;
    }
    if (r & 1) {
        qsort(s->v, s->n, sizeof *s->v, cmpname);
        unsigned long long x = ((unsigned)r >> 2) * 6364136223846793005ULL + 1442695040888963407ULL;
        for (int i = s->n - 1; i > 0; i--) {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            int j = (int)((x >> 33) % (unsigned)(i + 1));
            struct dirent64 t = s->v[i]; s->v[i] = s->v[j]; s->v[j] = t;
        }
    }
    if (r & 2) for (int i = 0; i < s->n; i++) s->v[i].d_type = DT_UNKNOWN;
    pthread_mutex_lock(&dmu);
    s->next = dlist; dlist = s;
    pthread_mutex_unlock(&dmu);
    return s;
}

static struct dirent64 *next64(DIR *d)
{
    struct dstate *s = dget(d);
    int r = call(OP_READDIR, dirfd(d), 0, s->i);
    if (r > 0) { errno = r; return 0; }
    if (s->i >= s->n) return 0;
    return &s->v[s->i++];
}
struct dirent64 *readdir64(DIR *d)
{ return !atomic_load(&g_hook) || in_hook ? r_readdir64(d) : next64(d); }
struct dirent *readdir(DIR *d)   /* same layout on x86_64 */
{ return !atomic_load(&g_hook) || in_hook ? r_readdir(d) : (struct dirent *)next64(d); }
int closedir(DIR *d)
{
    pthread_mutex_lock(&dmu);
    for (struct dstate **p = &dlist; *p; p = &(*p)->next)
        if ((*p)->d == d) { struct dstate *s = *p; *p = s->next; free(s->v); free(s); break; }
    pthread_mutex_unlock(&dmu);
    return r_closedir(d);
}
