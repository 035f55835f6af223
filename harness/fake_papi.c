// A scripted stand-in for the PAPI library.  The clock and the amount of work done are set by the harness, so
// every value the runtime may report is known; every call is logged with the API call it was made from.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <time.h>

#define OK 0
#define EINVAL_ (-1)
#define ENOEVST_ (-11)
#define EISRUN_ (-10)
#define ENOTRUN_ (-9)
#define MAXSETS 65536

struct set { int alive, running, nev; long long base, last; };
static struct set sets[MAXSETS];
static int nsets = 0;
static long long clock_ns = 0, work = 0, ticking = 0;
static int logfd = -1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int cur_op = -1;
static char* buf = 0; static size_t len = 0, cap = 0;
void (*fp_yield)(void) = 0;

static void out(const char* fmt, ...) {
    if (logfd < 0) return;
    char line[512];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(line, sizeof line, fmt, ap);
    va_end(ap);
    if (ticking) { // stress: keep in memory
        if (len + n + 1 > cap) { cap = cap ? cap * 2 : 1 << 16; while (cap < len + n + 1) cap *= 2; buf = realloc(buf, cap); }
        memcpy(buf + len, line, n); len += n;
    } else if (write(logfd, line, n) < 0) {}
}
__attribute__((destructor)) static void flush_(void) { size_t o = 0; while (o < len) { ssize_t k = write(logfd, buf + o, len - o); if (k <= 0) break; o += k; } }
void fp_flush(void) { pthread_mutex_lock(&mu); flush_(); len = 0; pthread_mutex_unlock(&mu); }

void fp_log(const char* path) { logfd = open(path, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); }
void fp_tick(long long on) { ticking = on; }
void fp_set(long long ns, long long w) { pthread_mutex_lock(&mu); clock_ns = ns; work = w; pthread_mutex_unlock(&mu); }
void fp_addwork(long long w) { pthread_mutex_lock(&mu); work += w; pthread_mutex_unlock(&mu); }
long long fp_op(int op) { cur_op = op; pthread_mutex_lock(&mu); out("A %d\n", op); pthread_mutex_unlock(&mu); return 0; }
void fp_ret(long long v) { pthread_mutex_lock(&mu); out("R %d %lld\n", cur_op, v); cur_op = -1; pthread_mutex_unlock(&mu); }
#define Y() do { if (fp_yield) fp_yield(); } while (0)
static struct set* get(int s) { return s >= 0 && s < nsets && sets[s].alive ? &sets[s] : 0; }
#define LOCK pthread_mutex_lock(&mu)
#define RET(name, r) do { int r_ = (r); out("P %d " name " %d %d\n", cur_op, s, r_); pthread_mutex_unlock(&mu); Y(); return r_; } while (0)

int PAPI_library_init(int v) { return v; }
const char* PAPI_strerror(int e) { return "error"; }
int PAPI_create_eventset(int* es) {
    Y(); LOCK; int s = nsets;
    if (*es != -1) { s = *es; RET("create", EINVAL_); }
    memset(&sets[s], 0, sizeof sets[s]); sets[s].alive = 1; nsets++; *es = s;
    RET("create", OK);
}
int PAPI_add_named_event(int s, const char* name) {
    LOCK; struct set* x = get(s); int r = OK;
    if (!x) r = ENOEVST_; else if (x->running) r = EISRUN_; else x->nev++;
    out("N %d %s\n", cur_op, name);
    RET("add", r);
}
int PAPI_start(int s) {
    Y(); LOCK; struct set* x = get(s);
    if (!x) RET("start", ENOEVST_);
    if (x->nev == 0) RET("start", EINVAL_);
    if (x->running) RET("start", EISRUN_);
    x->running = 1; x->base = work; RET("start", OK);
}
static void fill(struct set* x, long long* v) {
    long long w = x->running ? work - x->base : x->last;
    if (v) for (int i = 0; i < x->nev; i++) v[i] = w * (i + 1);
}
int PAPI_stop(int s, long long* v) {
    Y(); LOCK; struct set* x = get(s);
    if (!x) RET("stop", ENOEVST_);
    if (!x->running) RET("stop", ENOTRUN_);
    fill(x, v); x->last = work - x->base; x->running = 0; RET("stop", OK);
}
int PAPI_read(int s, long long* v) {
    Y(); LOCK; struct set* x = get(s);
    if (!x) RET("read", ENOEVST_);
    if (ticking) { work += 1; out("W %d %lld\n", cur_op, x->running ? work - x->base : x->last); }
    fill(x, v); RET("read", OK);
}
int PAPI_reset(int s) {
    LOCK; struct set* x = get(s);
    if (!x) RET("reset", ENOEVST_);
    x->base = work; RET("reset", OK);
}
int PAPI_cleanup_eventset(int s) {
    LOCK; struct set* x = get(s);
    if (!x) RET("cleanup", ENOEVST_);
    if (x->running) RET("cleanup", EISRUN_);
    x->nev = 0; RET("cleanup", OK);
}
int PAPI_destroy_eventset(int* es) {
    LOCK; int s = *es; struct set* x = get(s);
    if (!x) RET("destroy", ENOEVST_);
    if (x->running) RET("destroy", EISRUN_);
    if (x->nev) RET("destroy", EINVAL_);
    x->alive = 0; *es = -1; RET("destroy", OK);
}
long long PAPI_get_real_nsec(void) {
    Y(); LOCK; if (ticking) { clock_ns += 1000; out("C %d %lld\n", cur_op, clock_ns); }
    long long c = clock_ns; pthread_mutex_unlock(&mu); Y(); return c;
}
