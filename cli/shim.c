// Preloaded into the command: numbers its calls on files below SHIM_ROOT, logs
// them, lists directories in a chosen order, and makes chosen calls fail or
// kills the process there.
//
// SHIM_ROOT   absolute path without links
// SHIM_LOG    file to append to: number, name of the call, path
// SHIM_FAULTS number:action[,number:action]; an action is an errno number, or
//             kill, short (transfer one byte), zero (transfer nothing), half
//             (write half, then kill), or with + after it: this call and all
//             later calls of the same name
// SHIM_TURN   r,w: before each call, writes a byte to w and waits for one from r
// SHIM_ASKED  file to append to: what else the process asks for: names of
//             variables of the environment, @clock, @pid, @host
// SHIM_CLOCK, SHIM_PID, SHIM_HOST  answers to the last three
// SHIM_ORDER  n-th permutation of the sorted entries of each directory
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define FDS 1024

extern char **environ;

static char *variable(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; ++e) if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
    return 0;
}

static void asked(const char *name) {
    const char *path = variable("SHIM_ASKED");
    if (!path) return;
    char line[300];
    int n = snprintf(line, sizeof line, "%.250s\n", name);
    int fd = syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    syscall(SYS_write, fd, line, n);
    syscall(SYS_close, fd);
}

char *getenv(const char *name) { asked(name); return variable(name); }
char *secure_getenv(const char *name) { asked(name); return variable(name); }

int clock_gettime(clockid_t id, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, id, t);
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        asked("@clock");
        if (variable("SHIM_CLOCK")) { t->tv_sec = atoll(variable("SHIM_CLOCK")); t->tv_nsec = 0; }
    }
    return r;
}
time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *restrict v, void *restrict zone) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
pid_t getpid(void) {
    asked("@pid");
    return variable("SHIM_PID") ? atoi(variable("SHIM_PID")) : syscall(SYS_getpid);
}
int gethostname(char *out, size_t n) {
    asked("@host");
    if (variable("SHIM_HOST")) { snprintf(out, n, "%s", variable("SHIM_HOST")); return 0; }
    return REAL(gethostname)(out, n);
}

static char root[4096], cwd[4096], *fdpath[FDS];
static int ready, log_fd = -1, turn_r = -1, turn_w = -1;
static pthread_mutex_t one = PTHREAD_MUTEX_INITIALIZER;
static long number, order_n = -1;
static struct { long at; char action[16]; } faults[8];
static int nfaults;
static char sticky_call[32], sticky_action[16];

static void start(void) {
    if (ready) return;
    ready = 1;
    const char *r = variable("SHIM_ROOT"), *l = variable("SHIM_LOG"), *f = variable("SHIM_FAULTS"), *o = variable("SHIM_ORDER");
    if (r) snprintf(root, sizeof root, "%s", r);
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    if (l) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
    if (o) order_n = atol(o);
    if (variable("SHIM_TURN")) sscanf(variable("SHIM_TURN"), "%d,%d", &turn_r, &turn_w);
    while (f && *f && nfaults < 8) {
        faults[nfaults].at = strtol(f, (char **)&f, 10);
        if (*f == ':') ++f;
        size_t n = strcspn(f, ",");
        snprintf(faults[nfaults].action, sizeof faults[0].action, "%.*s", (int)n, f);
        ++nfaults;
        f += n;
        if (*f == ',') ++f;
    }
}

static void absolute(const char *path, char *out, size_t size) {
    if (path[0] == '/') snprintf(out, size, "%s", path);
    else snprintf(out, size, "%s/%s", cwd, path);
}

static int below(const char *path) {
    char a[8192];
    if (!root[0] || !path) return 0;
    absolute(path, a, sizeof a);
    size_t n = strlen(root);
    return strncmp(a, root, n) == 0 && (a[n] == '/' || a[n] == 0);
}

static const char *of_fd(int fd) { return fd >= 0 && fd < FDS && fdpath[fd] ? fdpath[fd] : 0; }

// The action for this call, or an empty string. Counts the call if it is one of ours.
static const char *step(const char *call, const char *path) {
    start();
    if (!below(path)) return "";
    pthread_mutex_lock(&one);
    if (turn_w >= 0) {
        char c = 0;
        syscall(SYS_write, turn_w, &c, 1);
        if (syscall(SYS_read, turn_r, &c, 1) != 1) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    }
    ++number;
    const char *action = "";
    if (sticky_call[0] && strcmp(sticky_call, call) == 0) action = sticky_action;
    for (int i = 0; i < nfaults; ++i) if (faults[i].at == number) {
        char *plus = strchr(faults[i].action, '+');
        if (plus) {
            *plus = 0;
            snprintf(sticky_call, sizeof sticky_call, "%s", call);
            snprintf(sticky_action, sizeof sticky_action, "%s", faults[i].action);
        }
        action = faults[i].action;
    }
    if (log_fd >= 0) {
        char a[8192], line[9000];
        absolute(path, a, sizeof a);
        int n = snprintf(line, sizeof line, "%ld %s %s %s\n", number, call, action[0] ? action : "-", a);
        syscall(SYS_write, log_fd, line, n);
    }
    if (strcmp(action, "kill") == 0) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    pthread_mutex_unlock(&one);
    return action;
}

// an errno number, or 0
static int error(const char *action) { return atoi(action); }

#define FAIL(call, path, value) do { const char *a_ = step(call, path); if (error(a_)) { errno = error(a_); return value; } } while (0)

static void opened(int fd, const char *path) {
    if (fd < 0 || fd >= FDS || !below(path)) return;
    free(fdpath[fd]);
    fdpath[fd] = strdup(path);
}

static const char *open_name(int flags) { return (flags & O_ACCMODE) == O_RDONLY ? "open" : "create"; }

#define OPEN(name) \
    int name(const char *path, int flags, ...) { \
        va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap); \
        FAIL(open_name(flags), path, -1); \
        int fd = REAL(name)(path, flags, mode); \
        opened(fd, path); \
        return fd; \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
    int name(int dir, const char *path, int flags, ...) { \
        va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap); \
        if (dir != AT_FDCWD && path[0] != '/') return REAL(name)(dir, path, flags, mode); \
        FAIL(open_name(flags), path, -1); \
        int fd = REAL(name)(dir, path, flags, mode); \
        opened(fd, path); \
        return fd; \
    }
OPENAT(openat)
OPENAT(openat64)

ssize_t read(int fd, void *buf, size_t n) {
    const char *p = of_fd(fd), *a = p ? step("read", p) : "";
    if (error(a)) { errno = error(a); return -1; }
    if (strcmp(a, "short") == 0 && n > 1) n = 1;
    return syscall(SYS_read, fd, buf, n);
}

static ssize_t put(int fd, const void *buf, size_t n) {
    const char *p = of_fd(fd), *a = p ? step("write", p) : "";
    if (error(a)) { errno = error(a); return -1; }
    if (strcmp(a, "zero") == 0) return 0;
    if (strcmp(a, "short") == 0 && n > 1) n = 1;
    if (strcmp(a, "half") == 0) {
        syscall(SYS_write, fd, buf, n / 2);
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    }
    return syscall(SYS_write, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) { return put(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!of_fd(fd)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return put(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

int close(int fd) {
    const char *p = of_fd(fd), *a = p ? step("close", p) : "";
    if (p) { free(fdpath[fd]); fdpath[fd] = 0; }
    int r = syscall(SYS_close, fd);
    if (error(a)) { errno = error(a); return -1; }
    return r;
}

int mkdir(const char *path, mode_t mode) { FAIL("mkdir", path, -1); return REAL(mkdir)(path, mode); }
int rmdir(const char *path) { FAIL("rmdir", path, -1); return REAL(rmdir)(path); }
int unlink(const char *path) { FAIL("unlink", path, -1); return REAL(unlink)(path); }
int rename(const char *from, const char *to) { FAIL("rename", to, -1); return REAL(rename)(from, to); }
int link(const char *from, const char *to) { FAIL("link", to, -1); return REAL(link)(from, to); }
int chmod(const char *path, mode_t mode) { FAIL("chmod", path, -1); return REAL(chmod)(path, mode); }
int truncate64(const char *path, off64_t n) { FAIL("truncate", path, -1); return REAL(truncate64)(path, n); }
int ftruncate64(int fd, off64_t n) { if (of_fd(fd)) FAIL("truncate", of_fd(fd), -1); return REAL(ftruncate64)(fd, n); }
int fsync(int fd) { if (of_fd(fd)) FAIL("fsync", of_fd(fd), -1); return REAL(fsync)(fd); }
int fdatasync(int fd) { if (of_fd(fd)) FAIL("fsync", of_fd(fd), -1); return REAL(fdatasync)(fd); }
int stat64(const char *path, struct stat64 *s) { FAIL("stat", path, -1); return REAL(stat64)(path, s); }
int lstat64(const char *path, struct stat64 *s) { FAIL("stat", path, -1); return REAL(lstat64)(path, s); }
int fstat64(int fd, struct stat64 *s) { if (of_fd(fd)) FAIL("fstat", of_fd(fd), -1); return REAL(fstat64)(fd, s); }
int access(const char *path, int mode) { FAIL("stat", path, -1); return REAL(access)(path, mode); }
char *realpath(const char *path, char *out) { FAIL("realpath", path, 0); return REAL(realpath)(path, out); }
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict s) {
    // std tests with invalid pointers whether the kernel has this call
    if ((size_t)path < 4096 || (size_t)s < 4096) return syscall(SYS_statx, dir, path, flags, mask, s);
    if (path[0]) FAIL("stat", path, -1);
    else if (of_fd(dir)) FAIL("fstat", of_fd(dir), -1);
    return syscall(SYS_statx, dir, path, flags, mask, s);
}

// Directories are read whole when opened, sorted, and listed in the chosen order
struct listing { DIR *dir; char path[4096]; struct dirent64 *all; int n, at; struct listing *next; };
static struct listing *listings;

static int by_name(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }

DIR *opendir(const char *path) {
    FAIL("opendir", path, 0);
    DIR *d = REAL(opendir)(path);
    if (!d || !below(path)) return d;
    struct listing *l = calloc(1, sizeof *l);
    l->dir = d;
    snprintf(l->path, sizeof l->path, "%s", path);
    struct dirent64 *e;
    while ((e = REAL(readdir64)(d))) {
        if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0) continue;
        l->all = realloc(l->all, (l->n + 1) * sizeof *e);
        memset(&l->all[l->n], 0, sizeof *e);
        memcpy(&l->all[l->n++], e, e->d_reclen);
    }
    if (order_n >= 0) {
        qsort(l->all, l->n, sizeof *l->all, by_name);
        long c = order_n;
        for (int i = 0; i < l->n; ++i) {
            int k = c % (l->n - i);
            c /= l->n - i;
            struct dirent64 t = l->all[i + k];
            memmove(&l->all[i + 1], &l->all[i], k * sizeof t);
            l->all[i] = t;
        }
    }
    l->next = listings;
    listings = l;
    return d;
}

struct dirent64 *readdir64(DIR *d) {
    for (struct listing *l = listings; l; l = l->next) if (l->dir == d) {
        FAIL("readdir", l->path, 0);
        if (l->at >= l->n) { return 0; }
        return &l->all[l->at++];
    }
    return REAL(readdir64)(d);
}

int closedir(DIR *d) {
    for (struct listing **l = &listings; *l; l = &(*l)->next) if ((*l)->dir == d) {
        struct listing *x = *l;
        *l = x->next;
        free(x->all);
        free(x);
        break;
    }
    return REAL(closedir)(d);
}
