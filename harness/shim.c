/* Preloaded into bcalc: watches its system calls on files below PBT_SHIM_DIR and, as told through
 * the shared page PBT_SHIM_CTL, kills it, lets calls fail, or stops it before one of them. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { WRITE = 1, SYNC = 2, TRUNC = 4, UNLINK = 8, OPEN = 16, LOCK = 32, READ = 64, MKDIR = 128 };
enum { NONE, KILL, HALF_KILL, FAIL, SHORT, STOP };

struct ctl {
    volatile uint64_t mask;   /* kinds that count */
    volatile uint64_t count;  /* calls counted so far */
    volatile uint64_t at;     /* the call something happens at, from 1; 0: never */
    volatile uint64_t until;  /* FAIL, SHORT: the last one */
    volatile uint64_t action;
    volatile uint64_t err;
    volatile uint64_t stopped; /* STOP: how often */
    volatile uint64_t fired;
    volatile uint64_t kind;   /* of the last call something happened at */
};

static struct ctl *ctl;
static char dir[512];
static size_t dirlen;
#define FDS 1024
static unsigned char ours[FDS];

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("PBT_SHIM_CTL"), *d = getenv("PBT_SHIM_DIR");
    if (!p || !d || strlen(d) >= sizeof dir) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) return;
    strcpy(dir, d);
    dirlen = strlen(dir);
    ctl = m;
}

/* The log of names of environment variables asked for (E), of files that were not there (F), and of
 * files opened for writing, made, moved or removed (W). */
static void note(char kind, const char *name) {
    static char log[512];
    static int state;
    if (!state) {
        extern char **environ;
        state = 1;
        for (char **e = environ; e && *e; e++)
            if (!strncmp(*e, "PBT_NAMES=", 10) && strlen(*e) < sizeof log) {
                strcpy(log, *e + 10);
                state = 2;
            }
    }
    if (state != 2 || !name || strlen(name) > (kind == 'W' ? 4096 : 200)) return;
    char line[4200];
    int n = snprintf(line, sizeof line, "%c %s", kind, name);
    for (int i = 0; i < n; i++)
        if (line[i] == '\n') line[i] = 1;
    line[n++] = '\n';
    int e = errno;
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (fd >= 0) {
        syscall(SYS_write, fd, line, n);
        syscall(SYS_close, fd);
    }
    errno = e;
}

static int ours_path(const char *p) { return ctl && p && !strncmp(p, dir, dirlen); }
static int ours_fd(int fd) { return ctl && fd >= 0 && fd < FDS && ours[fd]; }

static void die(void) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

/* What to do before a call of this kind: NONE, FAIL, SHORT or HALF_KILL. */
static int before(int kind) {
    if (!(ctl->mask & kind)) return NONE;
    uint64_t n = ++ctl->count;
    if (!ctl->at || n < ctl->at) return NONE;
    switch (ctl->action) {
    case KILL:
        if (n == ctl->at) {
            ctl->kind = kind;
            ctl->fired++;
            die();
        }
        return NONE;
    case HALF_KILL:
        if (n != ctl->at) return NONE;
        ctl->kind = kind;
        ctl->fired++;
        if (kind != WRITE) die();
        return HALF_KILL;
    case FAIL:
    case SHORT:
        if (n > ctl->until) return NONE;
        ctl->kind = kind;
        ctl->fired++;
        return ctl->action;
    case STOP:
        if (n == ctl->at) {
            ctl->kind = kind;
            ctl->fired++;
            ctl->stopped++;
            kill(getpid(), SIGSTOP);
        }
        return NONE;
    }
    return NONE;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

char *getenv(const char *name) {
    REAL(char *, getenv, const char *);
    note('E', name);
    return real(name);
}
char *secure_getenv(const char *name) {
    REAL(char *, secure_getenv, const char *);
    note('E', name);
    return real(name);
}
int access(const char *p, int mode) {
    REAL(int, access, const char *, int);
    int r = real(p, mode);
    if (r < 0) note('F', p);
    return r;
}
int stat64(const char *restrict p, struct stat64 *restrict b) {
    REAL(int, stat64, const char *, struct stat64 *);
    int r = real(p, b);
    if (r < 0) note('F', p);
    return r;
}
int statx(int fd, const char *restrict p, int fl, unsigned mask, struct statx *restrict b) {
    REAL(int, statx, int, const char *, int, unsigned, struct statx *);
    int r = real(fd, p, fl, mask, b);
    if (r < 0) note('F', p);
    return r;
}

static ssize_t cut(int fd, const void *b, size_t n) {
    return syscall(SYS_write, fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (ours_fd(fd)) switch (before(WRITE)) {
        case HALF_KILL: cut(fd, b, n / 2); die();
        case SHORT: if (n > 1) cut(fd, b, n / 2); /* fall through */
        case FAIL: errno = ctl->err; return -1;
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (ours_fd(fd)) switch (before(WRITE)) {
        case HALF_KILL: die();
        case SHORT:
        case FAIL: errno = ctl->err; return -1;
    }
    return real(fd, v, n);
}
#define PWRITE(name, off) \
ssize_t name(int fd, const void *b, size_t n, off o) { \
    REAL(ssize_t, name, int, const void *, size_t, off); \
    if (ours_fd(fd)) switch (before(WRITE)) { \
        case HALF_KILL: real(fd, b, n / 2, o); die(); \
        case SHORT: if (n > 1) real(fd, b, n / 2, o); /* fall through */ \
        case FAIL: errno = ctl->err; return -1; \
    } \
    return real(fd, b, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

#define PREAD(name, off) \
ssize_t name(int fd, void *b, size_t n, off o) { \
    REAL(ssize_t, name, int, void *, size_t, off); \
    if (ours_fd(fd) && before(READ) == FAIL) { errno = ctl->err; return -1; } \
    return real(fd, b, n, o); \
}
PREAD(pread, off_t)
PREAD(pread64, off64_t)
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (ours_fd(fd) && before(READ) == FAIL) { errno = ctl->err; return -1; }
    return real(fd, b, n);
}

#define SYNCER(name) \
int name(int fd) { \
    REAL(int, name, int); \
    if (ours_fd(fd)) switch (before(SYNC)) { \
        case SHORT: \
        case FAIL: errno = ctl->err == ENOSPC ? EIO : ctl->err; return -1; \
    } \
    return real(fd); \
}
SYNCER(fsync)
SYNCER(fdatasync)

#define TRUNCATE(name, off) \
int name(int fd, off n) { \
    REAL(int, name, int, off); \
    if (ours_fd(fd)) switch (before(TRUNC)) { \
        case SHORT: \
        case FAIL: errno = ctl->err; return -1; \
    } \
    return real(fd, n); \
}
TRUNCATE(ftruncate, off_t)
TRUNCATE(ftruncate64, off64_t)

#define CHANGER(name, decl, args, type, path) \
int name decl { \
    REAL(int, name, type); \
    int r = real args; \
    if (!r) note('W', path); \
    return r; \
}
#define TYPES(...) __VA_ARGS__
CHANGER(rename, (const char *a, const char *b), (a, b), TYPES(const char *, const char *), (note('W', a), b))
CHANGER(symlink, (const char *a, const char *b), (a, b), TYPES(const char *, const char *), b)
CHANGER(link, (const char *a, const char *b), (a, b), TYPES(const char *, const char *), b)
CHANGER(rmdir, (const char *a), (a), const char *, a)
CHANGER(chmod, (const char *a, mode_t m), (a, m), TYPES(const char *, mode_t), a)
CHANGER(truncate, (const char *a, off_t n), (a, n), TYPES(const char *, off_t), a)
CHANGER(truncate64, (const char *a, off64_t n), (a, n), TYPES(const char *, off64_t), a)

int unlink(const char *p) {
    REAL(int, unlink, const char *);
    if (ours_path(p)) switch (before(UNLINK)) {
        case SHORT:
        case FAIL: errno = EIO; return -1;
    }
    int r = real(p);
    if (!r) note('W', p);
    return r;
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if (ours_path(p)) switch (before(MKDIR)) {
        case SHORT:
        case FAIL: errno = ctl->err; return -1;
    }
    int r = real(p, m);
    if (!r) note('W', p);
    return r;
}

static int opened(int fd) {
    if (fd >= 0 && fd < FDS) ours[fd] = 1;
    return fd;
}
#define OPENER(name) \
int name(const char *p, int fl, ...) { \
    REAL(int, name, const char *, int, ...); \
    va_list a; \
    va_start(a, fl); \
    mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; \
    va_end(a); \
    if (!ours_path(p)) { \
        int r = real(p, fl, m); \
        if (r < 0) note('F', p); \
        else if (fl & (O_WRONLY | O_RDWR)) note('W', p); \
        return r; \
    } \
    switch (before(OPEN)) { \
        case SHORT: \
        case FAIL: errno = ctl->err; return -1; \
    } \
    return opened(real(p, fl, m)); \
}
OPENER(open)
OPENER(open64)

int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 && fd < FDS) ours[fd] = 0;
    return real(fd);
}

#define CONTROL(name) \
int name(int fd, int cmd, ...) { \
    REAL(int, name, int, int, ...); \
    va_list a; \
    va_start(a, cmd); \
    void *x = va_arg(a, void *); \
    va_end(a); \
    if ((cmd == F_SETLK || cmd == F_SETLKW) && ours_fd(fd)) before(LOCK); \
    return real(fd, cmd, x); \
}
CONTROL(fcntl)
CONTROL(fcntl64)
