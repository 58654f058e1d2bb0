/*
 * simshim: the system-call seam of the simulator (LD_PRELOAD).
 *
 * Every process of a simulated run (the python process, libgit2 inside it, and
 * the find / xargs / cat / sed / uniq children) has this library loaded.  A
 * control block, shared through the file named by SIMSHIM_CTL, says what to do:
 *
 *   - count the mutating file operations of one process on the files under
 *     `root`, and inject a fault at the k-th one: a kill before or after it, a
 *     write cut short then a kill, an errno, a short write;
 *   - count the reading operations (open, read, readdir) on database files in
 *     every process, and fail or kill at the k-th one;
 *   - fail a helper program when it starts;
 *   - serve the entries of directories in a seeded order;
 *   - serve a simulated clock;
 *   - refuse writes under `repo`.
 *
 * Without SIMSHIM_CTL, or with a zeroed control block, it does nothing.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define LOG_SIZE (1 << 20)

struct ctl {
    /* 0 */   uint64_t magic;
    /* 8 */   int64_t armed_pid;      /* the process whose mutating events count */
    /* 16 */  int64_t counter;
    /* 24 */  int64_t fault_at;       /* index of the event, -1: none */
    /* 32 */  int64_t fault_kind;
    /* 40 */  int64_t fault_errno;
    /* 48 */  int64_t torn;           /* 0..255: fraction of the bytes written */
    /* 56 */  int64_t fired;
    /* 64 */  int64_t readdir_seed;   /* 0: as the file system gives them */
    /* 72 */  int64_t clock_ns;       /* 0: real clock */
    /* 80 */  int64_t clock_step;
    /* 88 */  int64_t rf_at;          /* read faults, any process; -1: none */
    /* 96 */  int64_t rf_counter;
    /* 104 */ int64_t rf_kind;        /* 1 errno, 2 kill the process, 3 stop it, 4 errno on this path from now on */
    /* 112 */ int64_t rf_errno;
    /* 120 */ int64_t rf_fired;
    /* 128 */ int64_t rf_count_on;    /* count reads */
    /* 136 */ int64_t ex_kind;        /* 1: exit(1) at start, 2: killed at start */
    /* 144 */ int64_t ex_fired;
    /* 152 */ int64_t log_on;
    /* 160 */ int64_t log_len;
    /* 168 */ int64_t second_at;      /* a second fault, after the first one */
    /* 176 */ int64_t clock_calls;
    /* 184 */ int64_t rf_opens;       /* 1: open() counts also as a reading operation; 2: only the directories count;
                                      +4: every file under root is a database file; +8: stat() too counts;
                                      +16: the first read of each pipe too */
    /* 192 */ char root[256];
    /* 448 */ char repo[256];
    /* 704 */ char ex_prog[64];
    /* 768 */ char rf_prog[64];       /* "": every program */
    /* 832 */ char scope[256];        /* "": root; otherwise faults only under it */
    /* 1088 */ char rf_path[512];   /* with rf_kind 4: the path that fails from now on */
    /* 1600 */ int64_t ft_ns;         /* 0: real times of files; otherwise what the next write gives */
    /* 1608 */ int64_t ft_step;       /* 0: no two files have different times */
    /* 1616 */ char pad[4096 - 1616];
    char log[LOG_SIZE];
};

enum { K_CRASH_BEFORE = 1, K_CRASH_AFTER = 2, K_TORN = 3, K_ERRNO = 4, K_ERRNO_FOREVER = 5, K_SHORT = 6, K_STOP = 7 };

static struct ctl *C;
static int inited;
static char prog[64];

#define MAXFD 4096
static unsigned char fdw[MAXFD]; /* 1: opened for writing under root; 2: database file opened for reading; 3: pipe, not yet read */

#define REAL(name) ((__typeof__(&name))real_##name())
#define DEFREAL(name) \
    static void *real_##name(void) { static void *p; if (!p) p = dlsym(RTLD_NEXT, #name); return p; }

int __xstat(int, const char *, struct stat *);
int __lxstat(int, const char *, struct stat *);
int __fxstat(int, int, struct stat *);
int __xstat64(int, const char *, struct stat64 *);
int __lxstat64(int, const char *, struct stat64 *);
int __fxstat64(int, int, struct stat64 *);
DEFREAL(pipe2) 
DEFREAL(open) DEFREAL(open64) DEFREAL(openat) DEFREAL(openat64) DEFREAL(creat)
DEFREAL(write) DEFREAL(pwrite) DEFREAL(pwrite64) DEFREAL(writev) DEFREAL(read) DEFREAL(close)
DEFREAL(rename) DEFREAL(renameat) DEFREAL(renameat2) DEFREAL(unlink) DEFREAL(unlinkat) DEFREAL(mkdir) DEFREAL(mkdirat)
DEFREAL(rmdir) DEFREAL(ftruncate) DEFREAL(ftruncate64) DEFREAL(link) DEFREAL(symlink)
DEFREAL(mkstemp) DEFREAL(mkostemp)
DEFREAL(opendir) DEFREAL(fdopendir) DEFREAL(readdir) DEFREAL(closedir) DEFREAL(rewinddir)
DEFREAL(stat) DEFREAL(lstat) DEFREAL(stat64) DEFREAL(lstat64) DEFREAL(fstatat) DEFREAL(fstatat64) DEFREAL(fstat) DEFREAL(fstat64)
DEFREAL(__xstat) DEFREAL(__lxstat) DEFREAL(__fxstat) DEFREAL(__xstat64) DEFREAL(__lxstat64) DEFREAL(__fxstat64)
DEFREAL(clock_gettime) DEFREAL(gettimeofday) DEFREAL(time)

static void init(void)
{
    if (inited) return;
    inited = 1;
    const char *f = getenv("SIMSHIM_CTL");
    if (!f) return;
    int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *p = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (p == MAP_FAILED) return;
    if (((struct ctl *)p)->magic != 0x51D5111DULL) { munmap(p, sizeof(struct ctl)); return; }
    C = p;
    const char *n = program_invocation_short_name;
    strncpy(prog, n ? n : "?", sizeof(prog) - 1);
}

static void die(int how)
{
    if (how == 1) syscall(SYS_exit_group, 1);
    if (how == 2) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    syscall(SYS_exit_group, 137);
}

__attribute__((constructor)) static void ctor(void)
{
    init();
    if (C && C->ex_kind && C->ex_prog[0] && strcmp(prog, C->ex_prog) == 0) {
        C->ex_fired++;
        die((int)C->ex_kind);
    }
}

static void logev(const char *what, const char *path)
{
    if (!C || !C->log_on) return;
    char b[600];
    const char *p = path ? path : "?";
    size_t rl = strlen(C->root);
    if (rl && strncmp(p, C->root, rl) == 0) p += rl;
    int n = snprintf(b, sizeof b, "%s %s\n", what, p);
    if (n < 0) return;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    int64_t off = C->log_len;
    if (off + n > LOG_SIZE) return;
    C->log_len = off + n;
    memcpy(C->log + off, b, n);
}

static int abspath(int dirfd, const char *path, char *out, size_t n)
{
    if (path[0] == '/') { snprintf(out, n, "%s", path); return 1; }
    char base[512];
    ssize_t l;
    if (dirfd == AT_FDCWD) {
        if (!getcwd(base, sizeof base)) return 0;
    } else {
        char lnk[64];
        snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
        l = readlink(lnk, base, sizeof base - 1);
        if (l <= 0) return 0;
        base[l] = 0;
    }
    const char *p = path;
    while (p[0] == '.' && p[1] == '/') p += 2;
    if (strcmp(p, ".") == 0) p = "";
    snprintf(out, n, "%s%s%s", base, *p ? "/" : "", p);
    return 1;
}

static int under(const char *p, const char *root)
{
    size_t l = strlen(root);
    return l && strncmp(p, root, l) == 0 && (p[l] == 0 || p[l] == '/');
}

static int is_dbfile(const char *p)
{
    size_t l = strlen(p);
    return l > 5 && (strcmp(p + l - 5, ".desc") == 0 || strcmp(p + l - 5, ".ieml") == 0);
}

/* One mutating event. Returns 0: go on; -1: fail with errno; 1: crash after; 2: torn; 3: short */
static int event(const char *what, const char *path)
{
    if (!C || !C->armed_pid || syscall(SYS_getpid) != C->armed_pid) return 0;
    if (C->scope[0] && !under(path, C->scope)) return 0;
    logev(what, path);
    int64_t k = C->counter++;
    if (C->fault_kind == K_ERRNO_FOREVER) {
        if (C->fault_at >= 0 && k >= C->fault_at) {
            /* a full disk refuses new data; removals still work */
            if (C->fault_errno == ENOSPC && (what[0] == 'U' || what[0] == 'R')) return 0;
            C->fired++; errno = (int)C->fault_errno; return -1;
        }
        return 0;
    }
    int64_t at = C->fired ? C->second_at : C->fault_at;
    if (at < 0 || k != at) return 0;
    C->fired++;
    switch (C->fault_kind) {
    case K_CRASH_BEFORE: die(0); return 0;
    case K_CRASH_AFTER: return 1;
    case K_TORN: return 2;
    case K_ERRNO:
        errno = (int)C->fault_errno; return -1;
    case K_SHORT: return 3;
    case K_STOP: syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP); return 0;
    }
    return 0;
}

/* Files get simulated times: what the granularity of times changes is decided by the case too */
static void touch(int fd)
{
    if (!C || !C->ft_ns || fd < 0) return;
    int64_t n = __atomic_add_fetch(&C->ft_ns, C->ft_step, __ATOMIC_SEQ_CST);
    struct timespec t[2] = {{n / 1000000000, n % 1000000000}, {n / 1000000000, n % 1000000000}};
    int saved = errno;
    syscall(SYS_utimensat, fd, NULL, t, 0);
    errno = saved;
}

/* One reading event on a database file or directory */
static int revent(const char *what, const char *path)
{
    if (!C || !C->rf_count_on) return 0;
    if (C->rf_prog[0] && strcmp(prog, C->rf_prog) != 0) return 0;
    logev(what, path);
    if (C->rf_path[0] && strcmp(path, C->rf_path) == 0) { errno = (int)C->rf_errno; return -1; }
    int64_t k = __atomic_fetch_add(&C->rf_counter, 1, __ATOMIC_SEQ_CST);
    if (C->rf_at < 0 || k != C->rf_at) return 0;
    C->rf_fired++;
    if (C->rf_kind == 2) die(2);
    if (C->rf_kind == 3) { syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP); return 0; }
    if (C->rf_kind == 4) { strncpy(C->rf_path, path, sizeof C->rf_path - 1); }
    errno = (int)C->rf_errno;
    return -1;
}

static int pre_open(int dirfd, const char *path, int flags, char *ab, size_t n, int *mark, int *post)
{
    init();
    *mark = 0; *post = 0;
    if (!C) return 0;
    if (!abspath(dirfd, path, ab, n)) return 0;
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    if (wr && C->repo[0] && under(ab, C->repo)) { errno = EROFS; return -1; }
    if (!under(ab, C->root)) return 0;
    if (wr) {
        *mark = 1;
        /* only an open that changes something is an event */
        if (flags & (O_CREAT | O_TRUNC)) {
            int r = event("Open", ab);
            if (r == -1) return -1;
            *post = r == 1 || r == 2;
        }
    } else if (is_dbfile(ab) || (C->rf_opens & 4)) {
        *mark = 2;
        if ((C->rf_opens & 3) == 1 && revent("open", ab) == -1) return -1;
    }
    return 0;
}

#define OPEN_BODY(call, dirfd) \
    int mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    char ab[1024]; int mark, post; \
    if (pre_open(dirfd, path, flags, ab, sizeof ab, &mark, &post) == -1) return -1; \
    int fd = call; \
    if (mark == 1 && (flags & (O_CREAT | O_TRUNC))) touch(fd); \
    if (post) die(0); \
    if (fd >= 0 && fd < MAXFD) fdw[fd] = (unsigned char)mark; \
    return fd;

int open(const char *path, int flags, ...) { OPEN_BODY(REAL(open)(path, flags, mode), AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(REAL(open64)(path, flags, mode), AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(REAL(openat)(d, path, flags, mode), d) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(REAL(openat64)(d, path, flags, mode), d) }
int creat(const char *path, mode_t mode)
{
    char ab[1024]; int mark, post;
    if (pre_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, ab, sizeof ab, &mark, &post) == -1) return -1;
    int fd = REAL(creat)(path, mode);
    if (mark == 1) touch(fd);
    if (post) die(0);
    if (fd >= 0 && fd < MAXFD) fdw[fd] = (unsigned char)mark;
    return fd;
}

/* fortified variants */
int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open64(path, flags); }
int __openat_2(int d, const char *path, int flags) { return openat(d, path, flags); }
int __openat64_2(int d, const char *path, int flags) { return openat64(d, path, flags); }

static int tmp_event(const char *tpl, int *post)
{
    char ab[1024];
    init();
    *post = 0;
    if (!C || !abspath(AT_FDCWD, tpl, ab, sizeof ab) || !under(ab, C->root)) return 0;
    int r = event("Open", ab);
    if (r == -1) return -1;
    *post = r == 1 || r == 2;
    return 1;
}
int mkstemp(char *tpl)
{
    int post; int m = tmp_event(tpl, &post);
    if (m == -1) return -1;
    int fd = REAL(mkstemp)(tpl);
    if (m == 1) touch(fd);
    if (post) die(0);
    if (fd >= 0 && fd < MAXFD) fdw[fd] = m == 1;
    return fd;
}
int mkostemp(char *tpl, int flags)
{
    int post; int m = tmp_event(tpl, &post);
    if (m == -1) return -1;
    int fd = REAL(mkostemp)(tpl, flags);
    if (m == 1) touch(fd);
    if (post) die(0);
    if (fd >= 0 && fd < MAXFD) fdw[fd] = m == 1;
    return fd;
}

int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && fdw[fd] != 3) fdw[fd] = 0; /* (a vforked child closes the pipes in our memory) */
    return REAL(close)(fd);
}

static void fdpath(int fd, char *out, size_t n)
{
    char lnk[64];
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(lnk, out, n - 1);
    out[l > 0 ? l : 0] = 0;
}

#define WRITE_BODY(n, full, part) \
    if (fd < 0 || fd >= MAXFD || fdw[fd] != 1 || !C) return full; \
    ssize_t w; \
    char p[1024]; \
    int r = 0; \
    if (C->armed_pid) { fdpath(fd, p, sizeof p); r = event("Write", p); } \
    if (r == -1) return -1; \
    if (r == 0) { w = full; touch(fd); return w; } \
    if (r == 1) { (void)!full; touch(fd); die(0); } \
    size_t m = (size_t)(n) * (size_t)C->torn / 256; \
    if (r == 2) { if (m) { (void)!part; touch(fd); } die(0); } \
    if (m == 0) m = 1; \
    w = part; \
    touch(fd); \
    return w;

ssize_t write(int fd, const void *b, size_t n) { WRITE_BODY(n, REAL(write)(fd, b, n), REAL(write)(fd, b, m)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { WRITE_BODY(n, REAL(pwrite)(fd, b, n, o), REAL(pwrite)(fd, b, m, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { WRITE_BODY(n, REAL(pwrite64)(fd, b, n, o), REAL(pwrite64)(fd, b, m, o)) }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (fd < 0 || fd >= MAXFD || fdw[fd] != 1 || !C) return REAL(writev)(fd, v, c);
    char p[1024];
    int r = 0;
    if (C->armed_pid) { fdpath(fd, p, sizeof p); r = event("Write", p); }
    if (r == -1) return -1;
    if (r == 2) die(0);
    ssize_t w = REAL(writev)(fd, v, c);
    touch(fd);
    if (r == 1) die(0);
    return w;
}

static const char *rpath(int fd)
{
    static __thread char p[1024];
    if (C->rf_kind != 4) return "";
    fdpath(fd, p, sizeof p);
    return p;
}

int pipe2(int fd[2], int flags)
{
    init();
    int r = REAL(pipe2)(fd, flags);
    if (r == 0 && fd[0] < MAXFD) fdw[fd[0]] = C && C->rf_count_on && (C->rf_opens & 16) ? 3 : 0;
    return r;
}

static int fifo(int fd)
{
    struct stat st;
    return REAL(fstat)(fd, &st) == 0 && S_ISFIFO(st.st_mode);
}

ssize_t read(int fd, void *b, size_t n)
{
    if (fd >= 0 && fd < MAXFD && fdw[fd] == 3 && C && C->rf_count_on && (C->rf_opens & 16)) {
        fdw[fd] = 0;
        if (fifo(fd) && revent("read", "pipe") == -1) return -1;
    }
    if (fd >= 0 && fd < MAXFD && fdw[fd] == 2 && C && C->rf_count_on && (C->rf_opens & 3) != 2) {
        if (revent("read", rpath(fd)) == -1) return -1;
    }
    return REAL(read)(fd, b, n);
}

ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return read(fd, b, n); }

#define PATH_BODY(what, dirfd, path, call) \
    char ab[1024]; \
    init(); \
    if (!C || !abspath(dirfd, path, ab, sizeof ab)) return call; \
    if (C->repo[0] && under(ab, C->repo)) { errno = EROFS; return -1; } \
    if (!under(ab, C->root)) return call; \
    int r = event(what, ab); \
    if (r == -1) return -1; \
    if (r == 2) die(0); \
    int res = call; \
    if (r == 1) die(0); \
    return res;

int rename(const char *a, const char *b) { PATH_BODY("Rename", AT_FDCWD, b, REAL(rename)(a, b)) }
int renameat(int da, const char *a, int db, const char *b) { PATH_BODY("Rename", db, b, REAL(renameat)(da, a, db, b)) }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { PATH_BODY("Rename", db, b, REAL(renameat2)(da, a, db, b, f)) }
int unlink(const char *a) { PATH_BODY("Unlink", AT_FDCWD, a, REAL(unlink)(a)) }
int unlinkat(int d, const char *a, int f) { PATH_BODY("Unlink", d, a, REAL(unlinkat)(d, a, f)) }
int mkdir(const char *a, mode_t m) { PATH_BODY("Mkdir", AT_FDCWD, a, REAL(mkdir)(a, m)) }
int mkdirat(int d, const char *a, mode_t m) { PATH_BODY("Mkdir", d, a, REAL(mkdirat)(d, a, m)) }
int rmdir(const char *a) { PATH_BODY("Unlink", AT_FDCWD, a, REAL(rmdir)(a)) }
int link(const char *a, const char *b) { PATH_BODY("Link", AT_FDCWD, b, REAL(link)(a, b)) }
int symlink(const char *a, const char *b) { PATH_BODY("Link", AT_FDCWD, b, REAL(symlink)(a, b)) }

#define TRUNC_BODY(call) \
    if (fd < 0 || fd >= MAXFD || fdw[fd] != 1 || !C) return call; \
    char p[1024]; \
    int r = 0; \
    if (C->armed_pid) { fdpath(fd, p, sizeof p); r = event("Trunc", p); } \
    if (r == -1) return -1; \
    if (r == 2) die(0); \
    int res = call; \
    touch(fd); \
    if (r == 1) die(0); \
    return res;
int ftruncate(int fd, off_t l) { TRUNC_BODY(REAL(ftruncate)(fd, l)) }
int ftruncate64(int fd, off64_t l) { TRUNC_BODY(REAL(ftruncate64)(fd, l)) }

/* ---- directories, in a seeded order ---- */
struct dstate { DIR *d; struct dirent *e; size_t n, i; int loaded; int fault; struct dstate *next; };
static struct dstate *dirs;

static struct dstate *dfind(DIR *d)
{
    for (struct dstate *s = dirs; s; s = s->next) if (s->d == d) return s;
    return NULL;
}

static uint64_t mix(uint64_t x)
{
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}
static uint64_t hstr(const char *s, uint64_t h)
{
    while (*s) h = mix(h ^ (unsigned char)*s++);
    return h;
}

static uint64_t cmp_seed;
static int cmp_ent(const void *a, const void *b)
{
    const struct dirent *x = a, *y = b;
    uint64_t hx = hstr(x->d_name, cmp_seed), hy = hstr(y->d_name, cmp_seed);
    if (hx != hy) return hx < hy ? -1 : 1;
    return strcmp(x->d_name, y->d_name);
}

static void dtrack(DIR *d, const char *ab)
{
    if (!d || !C || !under(ab, C->root)) return;
    if (strstr(ab, "/.git") || strstr(ab, ".git/")) return;
    if (!C->readdir_seed && !C->rf_count_on) return;
    struct dstate *s = calloc(1, sizeof *s);
    s->d = d;
    s->next = dirs;
    dirs = s;
}

DIR *opendir(const char *path)
{
    init();
    char ab[1024];
    if (C && C->rf_opens && C->rf_count_on && abspath(AT_FDCWD, path, ab, sizeof ab) && under(ab, C->root) &&
        !strstr(ab, "/.git") && revent("opendir", ab) == -1) return NULL;
    DIR *d = REAL(opendir)(path);
    if (d && C && abspath(AT_FDCWD, path, ab, sizeof ab)) dtrack(d, ab);
    return d;
}
DIR *fdopendir(int fd)
{
    init();
    DIR *d = REAL(fdopendir)(fd);
    if (d && C) { char ab[1024]; fdpath(fd, ab, sizeof ab); dtrack(d, ab); }
    return d;
}
static struct dirent *do_readdir(DIR *d)
{
    struct dstate *s = dirs ? dfind(d) : NULL;
    if (!s) return REAL(readdir)(d);
    if (revent("readdir", "") == -1) return NULL;
    if (!s->loaded) {
        size_t cap = 0;
        struct dirent *e;
        int saved = errno;
        errno = 0;
        while ((e = REAL(readdir)(d))) {
            if (s->n == cap) { cap = cap ? cap * 2 : 16; s->e = realloc(s->e, cap * sizeof *e); }
            memcpy(&s->e[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
            s->n++;
        }
        errno = saved;
        s->loaded = 1;
        if (C->readdir_seed) { cmp_seed = (uint64_t)C->readdir_seed; qsort(s->e, s->n, sizeof *s->e, cmp_ent); }
    }
    if (s->i >= s->n) return NULL;
    return &s->e[s->i++];
}
struct dirent *readdir(DIR *d) { init(); return do_readdir(d); }
struct dirent64 *readdir64(DIR *d) { init(); return (struct dirent64 *)do_readdir(d); }
void rewinddir(DIR *d)
{
    struct dstate *s = dirs ? dfind(d) : NULL;
    if (s) { free(s->e); s->e = NULL; s->n = s->i = 0; s->loaded = 0; }
    REAL(rewinddir)(d);
}
int closedir(DIR *d)
{
    struct dstate **p = &dirs;
    while (*p) {
        if ((*p)->d == d) { struct dstate *s = *p; *p = s->next; free(s->e); free(s); break; }
        p = &(*p)->next;
    }
    return REAL(closedir)(d);
}

/* ---- stat ---- */
static int sevent(int dirfd, const char *path)
{
    char ab[1024];
    init();
    if (!C || !C->rf_count_on || !(C->rf_opens & 8) || !path || !path[0]) return 0;
    if (!abspath(dirfd, path, ab, sizeof ab) || !under(ab, C->root) || strstr(ab, "/.git")) return 0;
    return revent("stat", ab);
}
/* the kernel sets the change time from the real clock */
static int sfix(int r, struct stat *b) { if (r == 0 && C && C->ft_ns) b->st_ctim = b->st_mtim; return r; }
static int sfix64(int r, struct stat64 *b) { if (r == 0 && C && C->ft_ns) b->st_ctim = b->st_mtim; return r; }
#define SV(d, call) (sevent(d, p) == -1 ? -1 : sfix(call, b))
#define SV64(d, call) (sevent(d, p) == -1 ? -1 : sfix64(call, b))
int stat(const char *p, struct stat *b) { return SV(AT_FDCWD, REAL(stat)(p, b)); }
int lstat(const char *p, struct stat *b) { return SV(AT_FDCWD, REAL(lstat)(p, b)); }
int fstatat(int d, const char *p, struct stat *b, int f) { return SV(d, REAL(fstatat)(d, p, b, f)); }
int stat64(const char *p, struct stat64 *b) { return SV64(AT_FDCWD, REAL(stat64)(p, b)); }
int lstat64(const char *p, struct stat64 *b) { return SV64(AT_FDCWD, REAL(lstat64)(p, b)); }
int fstatat64(int d, const char *p, struct stat64 *b, int f) { return SV64(d, REAL(fstatat64)(d, p, b, f)); }
int fstat(int fd, struct stat *b) { init(); return sfix(REAL(fstat)(fd, b), b); }
int fstat64(int fd, struct stat64 *b) { init(); return sfix64(REAL(fstat64)(fd, b), b); }
/* what libraries built for an old glibc call */
int __xstat(int v, const char *p, struct stat *b) { return SV(AT_FDCWD, REAL(__xstat)(v, p, b)); }
int __lxstat(int v, const char *p, struct stat *b) { return SV(AT_FDCWD, REAL(__lxstat)(v, p, b)); }
int __xstat64(int v, const char *p, struct stat64 *b) { return SV64(AT_FDCWD, REAL(__xstat64)(v, p, b)); }
int __lxstat64(int v, const char *p, struct stat64 *b) { return SV64(AT_FDCWD, REAL(__lxstat64)(v, p, b)); }
int __fxstat(int v, int fd, struct stat *b) { init(); return sfix(REAL(__fxstat)(v, fd, b), b); }
int __fxstat64(int v, int fd, struct stat64 *b) { init(); return sfix64(REAL(__fxstat64)(v, fd, b), b); }

/* ---- clock ---- */
static int64_t now_ns(void)
{
    __atomic_fetch_add(&C->clock_calls, 1, __ATOMIC_SEQ_CST);
    return __atomic_add_fetch(&C->clock_ns, C->clock_step, __ATOMIC_SEQ_CST);
}
int clock_gettime(clockid_t id, struct timespec *t)
{
    if (!C || !C->clock_ns || id != CLOCK_REALTIME) return REAL(clock_gettime)(id, t);
    int64_t n = now_ns();
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z)
{
    if (!C || !C->clock_ns) return REAL(gettimeofday)(t, z);
    int64_t n = now_ns();
    t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000;
    return 0;
}
time_t time(time_t *t)
{
    if (!C || !C->clock_ns) return REAL(time)(t);
    time_t s = now_ns() / 1000000000;
    if (t) *t = s;
    return s;
}

/* ---- randomness: the same stream in every execution ---- */
#include <sys/random.h>
static uint64_t rnd_n;
static void rnd_fill(unsigned char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        rnd_n++;
        b[i] = (unsigned char)(mix(rnd_n * 0x9e3779b97f4a7c15ULL) >> 24);
    }
}
int getentropy(void *b, size_t n)
{
    init();
    if (C) { rnd_fill(b, n); return 0; }
    return syscall(SYS_getrandom, b, n, 0) == (ssize_t)n ? 0 : -1;
}
ssize_t getrandom(void *b, size_t n, unsigned flags)
{
    init();
    if (C) { rnd_fill(b, n); return (ssize_t)n; }
    return syscall(SYS_getrandom, b, n, flags);
}
