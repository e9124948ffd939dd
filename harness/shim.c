/* LD_PRELOAD shim: counts the file operations of nd, and injects one fault, a crash, short transfers
 * or EINTR. Settings in NDV_SHIM, ';'-separated:
 *   out=PATH     the number of counted operations is written here at exit
 *   short=SEED   every read and write is cut to a pseudo-random length
 *   eintr=K      every K-th read and every K-th write fails with EINTR
 *   fail=N,ERRNO the N-th operation fails (0-origin)
 *   crash=N      the process disappears at the N-th operation, before doing it
 *   half=N       ... after doing half of it, when it is a write
 *   renames      renames count as well
 * The file named by out= receives the number of operations, whether the fault has happened and the peak memory in KiB.
 * Children do not inherit the shim. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

#define MAGIC 0x6e6476L

static int active, shorts;
static unsigned long rng;
static long eintr, fail_at = -1, fail_no, crash_at = -1, half_at = -1, ops, reads, writes;
static char out[512];
static int fired;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static int (*r_open)(const char *, int, ...);
static int (*r_chmod)(const char *, mode_t);
static int (*r_fchmod)(int, mode_t);
static int (*r_unlink)(const char *);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_readv)(int, const struct iovec *, int);
static int (*r_statx)(int, const char *, int, unsigned, struct statx *);

static void report(void) {
    if (!out[0]) return;
    int fd = syscall(SYS_openat, AT_FDCWD, out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    /* the peak of the resident set, which unlike ru_maxrss starts afresh at execve */
    char st[4096] = "", b[64];
    int sf = syscall(SYS_openat, AT_FDCWD, "/proc/self/status", O_RDONLY);
    if (sf >= 0) {
        long l = syscall(SYS_read, sf, st, sizeof st - 1);
        if (l > 0) st[l] = 0;
        syscall(SYS_close, sf);
    }
    char *h = strstr(st, "VmHWM:");
    int n = snprintf(b, sizeof b, "%ld %d %ld\n", ops, fired, h ? strtol(h + 6, 0, 10) : 0L);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, n);
        syscall(SYS_close, fd);
    }
}

/* 0: go on, >0: fail with this errno, -1: crash after half of it */
static int step(void) {
    pthread_mutex_lock(&mu);
    long n = ops++;
    pthread_mutex_unlock(&mu);
    if (n == crash_at) syscall(SYS_exit_group, 77);
    if (n == half_at) return -1;
    if (n == fail_at) {
        fired = 1;
        return (int)fail_no;
    }
    return 0;
}

static size_t cut(size_t n) {
    if (!shorts || n <= 1) return n;
    pthread_mutex_lock(&mu);
    rng = rng * 6364136223846793005UL + 1442695040888963407UL;
    unsigned long x = rng >> 33;
    pthread_mutex_unlock(&mu);
    size_t cap = (x & 3) == 0 ? 7 : (x & 3) == 1 ? 150 : (x & 3) == 2 ? 5000 : 300000;
    if (cap > n) cap = n;
    return 1 + (x >> 2) % cap;
}

static void on_sys(int sig, siginfo_t *si, void *uc) {
    (void)sig;
    ucontext_t *u = uc;
    greg_t *g = u->uc_mcontext.gregs;
    int f = step();
    if (f < 0) syscall(SYS_exit_group, 77);
    if (f > 0) {
        g[REG_RAX] = -f;
        return;
    }
    long a0 = g[REG_RDI], a1 = g[REG_RSI], a2 = g[REG_RDX], a3 = g[REG_R10], a4 = g[REG_R8];
    long r = syscall(si->si_syscall, a0, a1, a2, a3, a4, MAGIC);
    g[REG_RAX] = r < 0 ? -errno : r;
}

static void trap_renames(void) {
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rename, 3, 0),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_renameat, 2, 0),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_renameat2, 1, 0),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[5])),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
    };
    struct sock_fprog p = {.len = sizeof f / sizeof *f, .filter = f};
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, NULL);
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0) prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}

__attribute__((constructor)) static void init(void) {
    r_read = dlsym(RTLD_NEXT, "read");
    r_write = dlsym(RTLD_NEXT, "write");
    r_open = dlsym(RTLD_NEXT, "open64");
    r_chmod = dlsym(RTLD_NEXT, "chmod");
    r_fchmod = dlsym(RTLD_NEXT, "fchmod");
    r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_readv = dlsym(RTLD_NEXT, "readv");
    r_statx = dlsym(RTLD_NEXT, "statx");
    const char *s = getenv("NDV_SHIM");
    if (!s) return;
    char *d = strdup(s), *sv = NULL;
    int renames = 0;
    for (char *t = strtok_r(d, ";", &sv); t; t = strtok_r(NULL, ";", &sv)) {
        if (!strncmp(t, "out=", 4)) snprintf(out, sizeof out, "%s", t + 4);
        if (!strncmp(t, "short=", 6)) shorts = 1, rng = strtoul(t + 6, NULL, 10) * 2862933555777941757UL + 3037000493UL;
        if (!strncmp(t, "eintr=", 6)) eintr = atol(t + 6);
        if (!strncmp(t, "fail=", 5)) sscanf(t + 5, "%ld,%ld", &fail_at, &fail_no);
        if (!strncmp(t, "crash=", 6)) crash_at = atol(t + 6);
        if (!strncmp(t, "half=", 5)) half_at = atol(t + 5);
        if (!strcmp(t, "renames")) renames = 1;
    }
    free(d);
    unsetenv("LD_PRELOAD");
    unsetenv("NDV_SHIM");
    if (renames) trap_renames();
    active = 1;
}

__attribute__((destructor)) static void fini(void) {
    if (active) report();
}

ssize_t read(int fd, void *b, size_t n) {
    if (!active) return r_read ? r_read(fd, b, n) : syscall(SYS_read, fd, b, n);
    int f = step();
    if (f < 0) syscall(SYS_exit_group, 77);
    if (f > 0) {
        errno = f;
        return -1;
    }
    if (eintr) {
        pthread_mutex_lock(&mu);
        long k = reads++;
        pthread_mutex_unlock(&mu);
        if (k % eintr == 0) {
            errno = EINTR;
            return -1;
        }
    }
    return r_read(fd, b, cut(n));
}

ssize_t write(int fd, const void *b, size_t n) {
    if (!active || fd == 2) return r_write ? r_write(fd, b, n) : syscall(SYS_write, fd, b, n);
    int f = step();
    if (f < 0) {
        syscall(SYS_write, fd, b, n / 2);
        syscall(SYS_exit_group, 77);
    }
    if (f > 0) {
        errno = f;
        return -1;
    }
    if (eintr && n > 0 && __sync_add_and_fetch(&writes, 1) % eintr == 0) {
        errno = EINTR;
        return -1;
    }
    return r_write(fd, b, cut(n));
}

int open64(const char *p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (active && strncmp(p, "/proc", 5) && strncmp(p, "/sys", 4) && strncmp(p, "/dev", 4)) {
        int f = step();
        if (f < 0) syscall(SYS_exit_group, 77);
        if (f > 0) {
            errno = f;
            return -1;
        }
    }
    return r_open ? r_open(p, fl, mode) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}

int chmod(const char *p, mode_t m) {
    if (active) {
        int f = step();
        if (f < 0) syscall(SYS_exit_group, 77);
        if (f > 0) {
            errno = f;
            return -1;
        }
    }
    return r_chmod ? r_chmod(p, m) : (int)syscall(SYS_chmod, p, m);
}

int fchmod(int fd, mode_t m) {
    if (active) {
        int f = step();
        if (f < 0) syscall(SYS_exit_group, 77);
        if (f > 0) {
            errno = f;
            return -1;
        }
    }
    return r_fchmod ? r_fchmod(fd, m) : (int)syscall(SYS_fchmod, fd, m);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    if (n > 0) {
        int i = 0;
        while (i + 1 < n && v[i].iov_len == 0) i++;
        return write(fd, v[i].iov_base, v[i].iov_len); /* a short transfer */
    }
    return r_writev(fd, v, n);
}

ssize_t readv(int fd, const struct iovec *v, int n) {
    if (n > 0) {
        int i = 0;
        while (i + 1 < n && v[i].iov_len == 0) i++;
        return read(fd, v[i].iov_base, v[i].iov_len);
    }
    return r_readv(fd, v, n);
}

/* only those of named files */
int statx(int d, const char *p, int fl, unsigned mask, struct statx *b) {
    const char *volatile q = p;
    if (active && q && q[0]) {
        int f = step();
        if (f < 0) syscall(SYS_exit_group, 77);
        if (f > 0) {
            errno = f;
            return -1;
        }
    }
    return r_statx ? r_statx(d, p, fl, mask, b) : (int)syscall(SYS_statx, d, p, fl, mask, b);
}

int unlink(const char *p) {
    if (active) {
        int f = step();
        if (f < 0) syscall(SYS_exit_group, 77);
        /* removing files is not made to fail: nothing could be done about it */
    }
    return r_unlink ? r_unlink(p) : (int)syscall(SYS_unlink, p);
}
