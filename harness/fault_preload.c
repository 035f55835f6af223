// LD_PRELOAD: counts file operations below $VRF_FAULT_ROOT while $VRF_FAULT_ON="mode:n" is set and
// fails the n-th (fail: ENOSPC, nothing done; short: half a write, which is legal) or ends the process there
// (kill: before it, killafter: after it, killhalf: after half a write).  Every operation counted is logged to
// $VRF_FAULT_LOG.  Independent: $VRF_REDIRECT="from=to" makes opens of one absolute path go to another.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int counter;
static void note(const char* what, const char* path) {
    const char* l = getenv("VRF_FAULT_LOG");
    if (!l) return;
    char b[600];
    int n = snprintf(b, sizeof b, "%s %s\n", what, path);
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, n);
        syscall(SYS_close, fd);
    }
}
static int under(const char* p) {
    const char* r = getenv("VRF_FAULT_ROOT");
    return r && p && !strncmp(p, r, strlen(r));
}
static int fd_under(int fd, char* buf, size_t n) {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, buf, n - 1);
    if (k <= 0) return 0;
    buf[k] = 0;
    return under(buf);
}
// 0 go on, 1 fail, 2 short/half, 3 kill after
static int at(const char* what, const char* path) {
    const char* s = getenv("VRF_FAULT_ON");
    if (!s) return 0;
    note(what, path);
    const char* c = strchr(s, ':');
    int n = atoi(c + 1);
    if (++counter != n) return 0;
    if (!strncmp(s, "killafter", 9)) return 3;
    if (!strncmp(s, "killhalf", 8)) return 4;
    if (!strncmp(s, "kill", 4)) _exit(77);
    if (!strncmp(s, "short", 5)) return 2;
    if (!strncmp(s, "fail", 4)) {
        note("FAILED", what);
        return 1;
    }
    return 0;
}
#define REAL(f) static typeof(&f) real; if (!real) real = (typeof(&f)) dlsym(RTLD_NEXT, #f)

static const char* redir(const char* p, char* buf, size_t n) {
    const char* r = getenv("VRF_REDIRECT");
    if (!r || !p) return p;
    const char* eq = strchr(r, '=');
    if (!eq || strlen(p) != (size_t) (eq - r) || strncmp(r, p, eq - r)) return p;
    snprintf(buf, n, "%s", eq + 1);
    return buf;
}

#define FOPEN(name)                                   \
    FILE* name(const char* path, const char* mode) {  \
        REAL(name);                                   \
        char rb[512];                                 \
        path = redir(path, rb, sizeof rb);            \
        int a = under(path) ? at("open", path) : 0;   \
        if (a == 1) { errno = ENOSPC; return 0; }     \
        FILE* f = real(path, mode);                   \
        if (a >= 3) _exit(77);                        \
        return f;                                     \
    }
FOPEN(fopen)
FOPEN(fopen64)
#define OPEN(name)                                    \
    int name(const char* path, int flags, ...) {      \
        REAL(name);                                   \
        va_list v; va_start(v, flags);                \
        int m = va_arg(v, int); va_end(v);            \
        char rb[512];                                 \
        path = redir(path, rb, sizeof rb);            \
        int a = (under(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT))) ? at("open", path) : 0; \
        if (a == 1) { errno = ENOSPC; return -1; }    \
        int r = real(path, flags, m);                 \
        if (a >= 3) _exit(77);                        \
        return r;                                     \
    }
OPEN(open)
OPEN(open64)
// the queries about a path that is redirected
#define STATF(name, T)                                \
    int name(const char* path, struct T* st) {        \
        REAL(name);                                   \
        char rb[512];                                 \
        return real(redir(path, rb, sizeof rb), st);  \
    }
STATF(stat, stat)
STATF(stat64, stat64)
STATF(lstat, stat)
STATF(lstat64, stat64)
int statx(int dfd, const char* restrict path, int flags, unsigned mask, struct statx* restrict st) {
    REAL(statx);
    char rb[512];
    return real(dfd, redir(path, rb, sizeof rb), flags, mask, st);
}
int access(const char* path, int m) {
    REAL(access);
    char rb[512];
    return real(redir(path, rb, sizeof rb), m);
}
int openat(int dfd, const char* path, int flags, ...) {
    REAL(openat);
    va_list v; va_start(v, flags);
    int m = va_arg(v, int); va_end(v);
    char rb[512];
    return real(dfd, redir(path, rb, sizeof rb), flags, m);
}
int mkdir(const char* path, mode_t m) {
    REAL(mkdir);
    int a = under(path) ? at("mkdir", path) : 0;
    if (a == 1) { errno = ENOSPC; return -1; }
    int r = real(path, m);
    if (a >= 3) _exit(77);
    return r;
}
int rename(const char* x, const char* y) {
    REAL(rename);
    int a = under(y) ? at("rename", y) : 0;
    if (a == 1) { errno = EIO; return -1; }
    int r = real(x, y);
    if (a >= 3) _exit(77);
    return r;
}
ssize_t write(int fd, const void* b, size_t n) {
    REAL(write);
    char buf[512];
    int a = getenv("VRF_FAULT_ON") && fd_under(fd, buf, sizeof buf) ? at("write", buf) : 0;
    if (a == 1) { errno = ENOSPC; return -1; }
    if (a == 2 && n > 1) return real(fd, b, n / 2);
    if (a == 4) { real(fd, b, n / 2); _exit(77); }
    ssize_t r = real(fd, b, n);
    if (a >= 3) _exit(77);
    return r;
}
ssize_t writev(int fd, const struct iovec* v, int k) {
    REAL(writev);
    char buf[512];
    int a = getenv("VRF_FAULT_ON") && fd_under(fd, buf, sizeof buf) ? at("write", buf) : 0;
    if (a == 1) { errno = ENOSPC; return -1; }
    if (a == 2 || a == 4) {
        struct iovec w = v[0];
        if (k > 1 && v[0].iov_len == 0) w = v[1];
        if (w.iov_len > 1) w.iov_len /= 2;
        ssize_t r = real(fd, &w, 1);
        if (a == 4) _exit(77);
        return r;
    }
    ssize_t r = real(fd, v, k);
    if (a >= 3) _exit(77);
    return r;
}
int fclose(FILE* f) {
    REAL(fclose);
    char buf[512];
    int a = getenv("VRF_FAULT_ON") && fd_under(fileno(f), buf, sizeof buf) ? at("close", buf) : 0;
    int r = real(f);
    if (a == 1) { errno = EIO; return EOF; }
    if (a >= 3) _exit(77);
    return r;
}
int close(int fd) {
    REAL(close);
    char buf[512];
    int a = getenv("VRF_FAULT_ON") && fd_under(fd, buf, sizeof buf) ? at("close", buf) : 0;
    int r = real(fd);
    if (a == 1) { errno = EIO; return -1; }
    if (a >= 3) _exit(77);
    return r;
}
