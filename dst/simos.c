/* The simulated OS under the interpreter: wall clock, entropy and disk calls of the process go
 * through this preloaded library.  Everything is off until the harness switches it on. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

/* ---------------------------------------------------------------- clock */
static int clk_on = 0;
static int64_t clk_sec = 0, clk_nsec = 0;
static uint64_t clk_reads = 0, mono_reads = 0;

void sim_clock(int on, int64_t sec, int64_t nsec) { clk_on = on; clk_sec = sec; clk_nsec = nsec; }
uint64_t sim_clock_reads(void) { return clk_reads; }
uint64_t sim_mono_reads(void) { return mono_reads; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    if (clk_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        clk_reads++;
        ts->tv_sec = clk_sec; ts->tv_nsec = clk_nsec;
        return 0;
    }
    if (clk_on && id == CLOCK_MONOTONIC) mono_reads++;
    return real(id, ts);
}

time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

/* -------------------------------------------------------------- entropy */
static int ent_mode = 0; /* 0 real, 1 stream, 2 zeros, 3 ones, 4 fail EIO, 5 short reads of the stream */
static uint64_t ent_state = 0, ent_reads = 0, ent_faults = 0;

void sim_entropy(int mode, uint64_t seed) { ent_mode = mode; ent_state = seed; }
uint64_t sim_entropy_reads(void) { return ent_reads; }
uint64_t sim_entropy_faults(void) { return ent_faults; }

static unsigned char ent_byte(void) {
    uint64_t z = (ent_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return (unsigned char)((z ^ (z >> 31)) >> 24);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    static ssize_t (*real)(void *, size_t, unsigned);
    if (!real) real = dlsym(RTLD_NEXT, "getrandom");
    if (ent_mode == 0) return real(buf, n, flags);
    ent_reads++;
    if (ent_mode == 4) { ent_faults++; errno = EIO; return -1; }
    if (ent_mode == 5 && n > 1) { ent_faults++; n = 1 + ent_byte() % n; }
    for (size_t i = 0; i < n; i++)
        ((unsigned char *)buf)[i] = ent_mode == 2 ? 0 : ent_mode == 3 ? 0xff : ent_byte();
    return (ssize_t)n;
}

/* ----------------------------------------------------------------- disk */
#define MAXFD 4096
#define MAXFAULT 64
#define MAXLOG 65536
enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_FSYNC };
enum { F_NONE = 0, F_EINTR = 1, F_SHORT, F_EIO, F_ENOSPC, F_CRASH, F_EACCES, F_CRASH_AFTER };

static char root[1024];
static size_t rootlen = 0;
static int dsk_on = 0;
static unsigned char tracked[MAXFD];
static int64_t calls = 0;
static int64_t fault_at[MAXFAULT];
static int fault_kind[MAXFAULT], fault_arg[MAXFAULT], fault_fired[MAXFAULT];
static int nfault = 0;
static int32_t logbuf[MAXLOG][4];
static int nlog = 0;
static char fault_paths[MAXFAULT][512];
static char fdpath[MAXFD][512];
static int crash_fd = -1;

void sim_disk(int on, const char *prefix) {
    dsk_on = on; calls = 0; nfault = 0; nlog = 0;
    memset(tracked, 0, sizeof tracked);
    if (prefix) { strncpy(root, prefix, sizeof root - 1); rootlen = strlen(root); }
}
void sim_disk_crash_fd(int fd) { crash_fd = fd; }
int sim_disk_fault(int64_t at, int kind, int arg) {
    if (nfault >= MAXFAULT) return -1;
    fault_at[nfault] = at; fault_kind[nfault] = kind; fault_arg[nfault] = arg;
    fault_fired[nfault] = 0; fault_paths[nfault][0] = 0;
    return nfault++;
}
int64_t sim_disk_calls(void) { return calls; }
int sim_disk_fired(int i) { return fault_fired[i]; }
const char *sim_disk_fault_path(int i) { return fault_paths[i]; }
int sim_disk_nlog(void) { return nlog; }
int32_t sim_disk_log(int i, int j) { return logbuf[i][j]; }

static int under(const char *p) { return dsk_on && p && rootlen && strncmp(p, root, rootlen) == 0; }

static void logev(int op, long n, long r, int fault) {
    if (nlog < MAXLOG) {
        logbuf[nlog][0] = op; logbuf[nlog][1] = (int32_t)n;
        logbuf[nlog][2] = (int32_t)r; logbuf[nlog][3] = fault; nlog++;
    }
}

static void die(int i, int op) {
    if (crash_fd >= 0) {
        char b[700];
        int n = snprintf(b, sizeof b, "%d %lld %d %s\n", i, (long long)calls, op, fault_paths[i]);
        static ssize_t (*rw)(int, const void *, size_t);
        if (!rw) rw = dlsym(RTLD_NEXT, "write");
        if (rw(crash_fd, b, (size_t)n) < 0) { }
    }
    _exit(77);
}

/* next disk call: which fault, if any */
static int step(int op, const char *path, int *arg, int *slot) {
    int64_t me = calls++;
    for (int i = 0; i < nfault; i++) {
        if (fault_at[i] != me || fault_fired[i]) continue;
        int k = fault_kind[i];
        /* keep only combinations a kernel can produce */
        if (k == F_SHORT && op != OP_READ && op != OP_WRITE) continue;
        if (k == F_EINTR && op != OP_READ && op != OP_WRITE && op != OP_OPEN) continue;
        if (k == F_ENOSPC && op != OP_WRITE && op != OP_OPEN && op != OP_RENAME && op != OP_FSYNC) continue;
        if (k == F_EACCES && op != OP_OPEN && op != OP_RENAME && op != OP_UNLINK) continue;
        fault_fired[i] = op;
        if (path) { strncpy(fault_paths[i], path, sizeof fault_paths[i] - 1); }
        *arg = fault_arg[i]; *slot = i;
        if (k == F_CRASH) die(i, op);
        return k;
    }
    return F_NONE;
}

static int fault_errno(int k) {
    switch (k) {
    case F_EINTR: return EINTR;
    case F_EIO: return EIO;
    case F_ENOSPC: return ENOSPC;
    case F_EACCES: return EACCES;
    }
    return 0;
}

static int do_open(const char *path, int dirfd, int flags, mode_t mode, int at) {
    static int (*ropen)(const char *, int, ...);
    static int (*ropenat)(int, const char *, int, ...);
    if (!ropen) ropen = dlsym(RTLD_NEXT, "open64");
    if (!ropenat) ropenat = dlsym(RTLD_NEXT, "openat64");
    int track = under(path) && !(flags & O_DIRECTORY);
    if (track) {
        int arg = 0, slot = 0, k = step(OP_OPEN, path, &arg, &slot);
        if (fault_errno(k)) { logev(OP_OPEN, flags & O_ACCMODE, -1, k); errno = fault_errno(k); return -1; }
        int fd = at ? ropenat(dirfd, path, flags, mode) : ropen(path, flags, mode);
        if (k == F_CRASH_AFTER) die(slot, OP_OPEN);
        logev(OP_OPEN, flags & O_ACCMODE, fd >= 0 ? 0 : -1, k);
        if (fd >= 0 && fd < MAXFD) {
            tracked[fd] = 1;
            strncpy(fdpath[fd], path, sizeof fdpath[fd] - 1);
        }
        return fd;
    }
    return at ? ropenat(dirfd, path, flags, mode) : ropen(path, flags, mode);
}

#define GETMODE(flags) mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags) return do_open(path, AT_FDCWD, flags, mode, 0); }
int open64(const char *path, int flags, ...) { GETMODE(flags) return do_open(path, AT_FDCWD, flags, mode, 0); }
int openat(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(path, d, flags, mode, 1); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(path, d, flags, mode, 1); }

ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (fd >= 0 && fd < MAXFD && tracked[fd]) {
        int arg = 0, slot = 0, k = step(OP_READ, fdpath[fd], &arg, &slot);
        if (fault_errno(k)) { logev(OP_READ, 0, -1, k); errno = fault_errno(k); return -1; }
        if (k == F_SHORT && n > 1) n = 1 + (size_t)arg % (n - 1);
        ssize_t r = real(fd, buf, n);
        if (k == F_CRASH_AFTER) die(slot, OP_READ);
        logev(OP_READ, 0, r, k);
        return r;
    }
    return real(fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd >= 0 && fd < MAXFD && tracked[fd]) {
        int arg = 0, slot = 0, k = step(OP_WRITE, fdpath[fd], &arg, &slot);
        if (fault_errno(k)) { logev(OP_WRITE, n, -1, k); errno = fault_errno(k); return -1; }
        size_t m = n;
        if ((k == F_SHORT || k == F_CRASH_AFTER) && n > 1) m = 1 + (size_t)arg % (n - 1);
        ssize_t r = real(fd, buf, m);
        if (k == F_CRASH_AFTER) die(slot, OP_WRITE);   /* torn write, then power off */
        logev(OP_WRITE, n, r, k);
        return r;
    }
    return real(fd, buf, n);
}

int close(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < MAXFD && tracked[fd]) {
        int arg = 0, slot = 0, k = step(OP_CLOSE, fdpath[fd], &arg, &slot);
        tracked[fd] = 0;
        int r = real(fd);
        if (k == F_CRASH_AFTER) die(slot, OP_CLOSE);
        if (k == F_EIO) { logev(OP_CLOSE, 0, -1, k); errno = EIO; return -1; }
        logev(OP_CLOSE, 0, r, 0);
        return r;
    }
    return real(fd);
}

int rename(const char *a, const char *b) {
    static int (*real)(const char *, const char *);
    if (!real) real = dlsym(RTLD_NEXT, "rename");
    if (under(a) || under(b)) {
        int arg = 0, slot = 0, k = step(OP_RENAME, b, &arg, &slot);
        if (fault_errno(k)) { logev(OP_RENAME, 0, -1, k); errno = fault_errno(k); return -1; }
        int r = real(a, b);
        if (k == F_CRASH_AFTER) die(slot, OP_RENAME);
        logev(OP_RENAME, 0, r, k);
        return r;
    }
    return real(a, b);
}

int unlink(const char *p) {
    static int (*real)(const char *);
    if (!real) real = dlsym(RTLD_NEXT, "unlink");
    if (under(p)) {
        int arg = 0, slot = 0, k = step(OP_UNLINK, p, &arg, &slot);
        if (fault_errno(k)) { logev(OP_UNLINK, 0, -1, k); errno = fault_errno(k); return -1; }
        int r = real(p);
        if (k == F_CRASH_AFTER) die(slot, OP_UNLINK);
        logev(OP_UNLINK, 0, r, k);
        return r;
    }
    return real(p);
}

static int do_trunc(int fd, off64_t len) {
    static int (*real)(int, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "ftruncate64");
    if (fd >= 0 && fd < MAXFD && tracked[fd]) {
        int arg = 0, slot = 0, k = step(OP_TRUNC, fdpath[fd], &arg, &slot);
        if (fault_errno(k)) { logev(OP_TRUNC, (long)len, -1, k); errno = fault_errno(k); return -1; }
        int r = real(fd, len);
        if (k == F_CRASH_AFTER) die(slot, OP_TRUNC);
        logev(OP_TRUNC, (long)len, r, k);
        return r;
    }
    return real(fd, len);
}
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }

int fsync(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "fsync");
    if (fd >= 0 && fd < MAXFD && tracked[fd]) {
        int arg = 0, slot = 0, k = step(OP_FSYNC, fdpath[fd], &arg, &slot);
        if (fault_errno(k)) { logev(OP_FSYNC, 0, -1, k); errno = fault_errno(k); return -1; }
        int r = real(fd);
        if (k == F_CRASH_AFTER) die(slot, OP_FSYNC);
        logev(OP_FSYNC, 0, r, k);
        return r;
    }
    return real(fd);
}
