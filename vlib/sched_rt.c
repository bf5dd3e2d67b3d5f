// Runtime of the native replay of schedules: the module that the executor ran,
// compiled by llc, with a call to sx_point before every acquiring
// compare-and-exchange, and the slow paths of the locks calling in here. One
// thread runs at a time; the switches are those of the replay file.
// Usage: prog FILE, with SX_DIR naming an empty scratch directory.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
#define MAXT 8
#define MAXN 4096
static char in_name[MAXN][96], pa_name[64][96];
static u64 in_val[MAXN], pa_val[64];
static int nin, npa, next_in, failed, done;
static u32 allowed;
static long sw_at[MAXN];
static int sw_to[MAXN], nsw, next_sw;
static char harness[128];

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXT];
static int cur, nth = 1, on;
static long count;
enum { RUN, DONE, RWX, RWS, RWSR, MTX, JOINALL, JOIN1 };
static int wait_[MAXT], phase[MAXT], joinof[MAXT];
static volatile u64 *lock_[MAXT];
static __thread int me;
static __thread int over;

static void out(const char *f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof b - 1, f, a);
    va_end(a);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (write(1, b, n) < 0) _exit(5);
}
static void quit(int c) { done = 1; _exit(c); }

static int runnable(int j) {
    volatile u64 *p = lock_[j];
    switch (wait_[j]) {
    case RUN: return 1;
    case DONE: return 0;
    case RWX: return phase[j] ? (*p & ~15ull) == 0 : (*p & 8) == 0;
    case RWS: return (*p & 8) == 0;
    case RWSR: return (*p & 8) == 0 || (*p & ~15ull) != 0;
    case MTX: return (*(volatile uint8_t *)p & 1) == 0;
    case JOIN1: return wait_[joinof[j]] == DONE;
    default:
        for (int i = 0; i < nth; i++)
            if (i != j && wait_[i] != DONE) return 0;
        return 1;
    }
}
// the others run until thread j hands over
static void handover(int j) {
    pthread_mutex_lock(&mu);
    cur = j;
    wait_[j] = RUN;
    pthread_cond_signal(&cv[j]);
    if (!over)
        while (cur != me) pthread_cond_wait(&cv[me], &mu);
    pthread_mutex_unlock(&mu);
}
// this thread cannot go on
static void block(void) {
    int j = -1;
    for (int i = nth - 1; i >= 0; i--)
        if (runnable(i)) j = i;
    if (j < 0) {
        out("SX-DEADLOCK no thread can go on");
        quit(1);
    }
    if (next_sw < nsw && sw_at[next_sw] < 0) {
        j = sw_to[next_sw++];
        if (j >= nth || !runnable(j)) {
            out("SX-DIVERGED thread %d cannot run", j);
            quit(4);
        }
    } else if (nsw) {
        out("SX-DIVERGED a thread waits where the schedule has no switch");
        quit(4);
    }
    if (j == me && !over) {
        wait_[me] = RUN;
        return;
    }
    handover(j);
}
void sx_point(void) {
    if (over || !on) return;
    count++;
    if (next_sw < nsw && sw_at[next_sw] == count) {
        int j = sw_to[next_sw++];
        if (j >= nth || !runnable(j)) {
            out("SX-DIVERGED thread %d cannot run", j);
            quit(4);
        }
        handover(j);
    }
}
void sx_rw_excl(volatile u64 *p) {
    while (*p & 8) {
        lock_[me] = p;
        wait_[me] = RWX;
        block();
    }
    *p |= 8;
    phase[me] = 1;
    while (*p & ~15ull) {
        lock_[me] = p;
        wait_[me] = RWX;
        block();
    }
    phase[me] = 0;
}
void sx_rw_shared(volatile u64 *p, int rec) {
    while (!((*p & 8) == 0 || (rec && (*p & ~15ull)))) {
        lock_[me] = p;
        wait_[me] = rec ? RWSR : RWS;
        block();
    }
    *p += 16;
}
void sx_mutex(volatile u64 *p) {
    while (*(volatile uint8_t *)p & 1) {
        lock_[me] = p;
        wait_[me] = MTX;
        block();
    }
    *(volatile uint8_t *)p |= 1;
}
void sx_never(void) {
    out("SX-DIVERGED a slow unlock");
    quit(4);
}
struct start { void (*f)(u64); u64 a; int id; };
static void *run(void *v) {
    struct start s = *(struct start *)v;
    free(v);
    me = s.id;
    pthread_mutex_lock(&mu);
    while (cur != me) pthread_cond_wait(&cv[me], &mu);
    pthread_mutex_unlock(&mu);
    s.f(s.a);
    over = 1;
    wait_[me] = DONE;
    block();
    return 0;
}
u64 sx_spawn(void (*f)(u64), u64 a) {
    struct start *s = malloc(sizeof *s);
    pthread_t t;
    if (nth >= MAXT) abort();
    s->f = f;
    s->a = a;
    s->id = nth++;
    int i = s->id;
    pthread_create(&t, 0, run, s);
    return i;
}
void sx_wait(u64 t) {
    if (wait_[t] == DONE) return;
    joinof[me] = (int)t;
    wait_[me] = JOIN1;
    block();
}
void sx_join(void) {
    int all = 1;
    for (int i = 0; i < nth; i++) all &= i == me || wait_[i] == DONE;
    if (all) return;
    wait_[me] = JOINALL;
    block();
}
void sx_sched(int n) { on = n >= 0; }

static u64 next(const char *n) {
    if (next_in >= nin) {
        out("SX-DIVERGED no input left for %s", n);
        quit(4);
    }
    if (strcmp(in_name[next_in], n)) {
        out("SX-DIVERGED input %s where the harness asks for %s", in_name[next_in], n);
        quit(4);
    }
    return in_val[next_in++];
}
static u64 within(u64 v, u64 lo, u64 hi) {
    if (v < lo || v > hi) {
        out("SX-DIVERGED an input is out of its range");
        quit(4);
    }
    return v;
}
u64 sx_sym(const char *n, u64 w) { return within(next(n), 0, w < 64 ? (1ull << w) - 1 : ~0ull); }
u64 sx_range(const char *n, u64 lo, u64 hi) { return within(next(n), lo, hi); }
u64 sx_conc(u64 v) { return v; }
void sx_assume(u32 c) {
    if (!c) {
        out("SX-CUT assume");
        quit(0);
    }
}
void sx_assert_(u32 c, const char *l) {
    if (!c) {
        failed = 1;
        out("SX-FAIL %s", l);
    }
}
void sx_cover_(const char *l) { out("SX-COVER %s", l); }
void sx_observe(u64 v) { out("SX-OBS %llu", (unsigned long long)v); }
void sx_allow(u32 b) { allowed = b; }
void sx_end(void) {
    out("SX-END");
    quit(failed ? 1 : 0);
}
u64 sx_heap_live(void) { return 0; }
u64 sx_ite(u32 c, u64 a, u64 b) { return c ? a : b; }
u32 sx_and(u32 a, u32 b) { return a && b; }
u32 sx_or(u32 a, u32 b) { return a || b; }
u32 sx_eq(u64 a, u64 b) { return a == b; }
u32 sx_ne(u64 a, u64 b) { return a != b; }
u32 sx_ult(u64 a, u64 b) { return a < b; }
u32 sx_ule(u64 a, u64 b) { return a <= b; }
static float fl(u32 a) { float f; memcpy(&f, &a, 4); return f; }
u32 sx_flt(u32 a, u32 b) { return fl(a) < fl(b); }
u32 sx_fle(u32 a, u32 b) { return fl(a) <= fl(b); }
u64 sx_param(const char *n, u64 d) {
    for (int i = 0; i < npa; i++)
        if (!strcmp(pa_name[i], n)) return pa_val[i];
    return d;
}
void sx_trace_(const char *l, u64 v) { out("SX-TRACE %s %llu", l, (unsigned long long)v); }
double sx_log(double x) {
    static double (*f)(double);
    if (!f) f = (double (*)(double))dlsym(dlopen("libm.so.6", RTLD_NOW), "log");
    return f(x);
}
// the random bytes of the executor
static u64 rnd = RND_SEED;
long syscall(long n, ...) {
    long a[6];
    va_list v;
    va_start(v, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    if (n == 318) {
        for (long i = 0; i < a[1]; i++) {
            rnd ^= rnd << 13;
            rnd ^= rnd >> 7;
            rnd ^= rnd << 17;
            ((uint8_t *)a[0])[i] = rnd;
        }
        return a[1];
    }
    long r;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
static void on_abort(int s) {
    if (allowed & 1 && s == SIGABRT) {
        out("SX-CUT panic");
        _exit(0);
    }
    out(s == SIGABRT ? "SX-PANIC" : "SX-CRASH signal %d", s);
    _exit(s == SIGABRT ? 1 : 3);
}
int main(int argc, char **argv) {
    FILE *f = argc > 1 ? fopen(argv[1], "r") : 0;
    if (!f) return 5;
    static char l[1 << 16];
    while (fgets(l, sizeof l, f)) {
        unsigned long long v;
        char n[96];
        if (sscanf(l, "harness %120s", harness) == 1) continue;
        if (npa < 64 && sscanf(l, "param %95s %llu", n, &v) == 2) {
            strcpy(pa_name[npa], n);
            pa_val[npa++] = v;
        }
        if (nin < MAXN && sscanf(l, "in %95s %llu", n, &v) == 2) {
            strcpy(in_name[nin], n);
            in_val[nin++] = v;
        }
        if (!strncmp(l, "sched ", 6))
            for (char *t = strtok(l + 6, " \n"); t && nsw < MAXN; t = strtok(0, " \n"), nsw++) {
                sw_at[nsw] = *t == 'b' ? -1 : atol(t);
                sw_to[nsw] = atoi(strchr(t, '>') + 1);
            }
    }
    for (int i = 0; i < MAXT; i++) pthread_cond_init(&cv[i], 0);
    // dumps go to a relative directory
    const char *sd = getenv("SX_DIR");
    if (!sd || chdir(sd)) return 5;
    mkdir("sub", 0700);
    int sg[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE};
    for (int i = 0; i < 5; i++) signal(sg[i], on_abort);
    void (*e)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, harness);
    if (!e) {
        out("unknown harness %s", harness);
        return 5;
    }
    e();
    sx_end();
    return 0;
}
