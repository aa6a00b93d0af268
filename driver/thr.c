// Threads of the conformance driver.  The library is compiled with calls before each memory access (-fsanitize=thread
// without its run time system) and before each call it makes; here they are the points at which exactly one thread of
// several continues.  Which one is given by a schedule, so that an interleaving is an input like any other.
//
// stdin:   @setup | @thread | @final     the commands of drv.c which follow belong to this part
//          @at s p:t p:t ...             run: thread s first; at the p-th access to shared memory thread t continues
//          @rnd seed a b                 run: at an access to shared memory another thread with probability a/65536,
//                                        at a call with probability b/65536
// Each run is a process of its own, in which the library is used for the first time.  Its recording is the setup, then
// the calls of each thread in turn, then the final part: it must be a behaviour of the sequential specification.
// Distinct recordings go to DIR/<hash>.ndjson; stdout has one line per run: schedule number, hash, accesses to shared memory, calls.
#define _GNU_SOURCE
#ifndef THREADED
#define THREADED
#endif
#include "drv.c"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <threads.h>
#include <time.h>
#include "rnd.h"

#define NT 4                 // threads
#define MAIN NT
#define PER 24               // objects of each kind per thread; the rest belongs to the main program
#define LOGSZ (8 << 20)
static char **script[NT + 2]; static int nscr[NT + 2], nthreads;
typedef struct { size_t n; char b[LOGSZ]; } log_t;
static log_t *logs;          // shared with the parent process
static volatile long *shared_points;

// ---- scheduler -------------------------------------------------------------
static __thread int me = -1;
static __thread uintptr_t stk_lo, stk_hi;
static volatile int on, turn, done[NT];
static volatile unsigned long progress;
static sem_t wake[NT];
static struct { int rnd, n, at; long pos[64]; int to[64]; uint64_t st; unsigned a, b; } sc;
static unsigned long idle;
static uint64_t rnd64(void) { uint64_t z = (sc.st += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int alive(int t) { return t >= 0 && t < nthreads && !done[t]; }
static int other(int t) { int i; for (i = 1; i < nthreads; i++) if (alive((t + i) % nthreads)) return (t + i) % nthreads; return alive(t) ? t : -1; }

static void await(void) {     // until it is this thread's turn
    while (turn != me) {
        struct timespec ts; unsigned long p = progress;
        clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 50000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
        if (sem_timedwait(&wake[me], &ts) != 0 && turn != me && p == progress) turn = me;     // the thread whose turn it is is blocked
    }
    progress++;
}
static void give(int t) { if (t < 0 || t == me) return; turn = t; sem_post(&wake[t]); await(); }

static void point(int kind) {            // 0: a call, 1: an access to shared memory, 2: another access
    int shared = kind == 1;
    progress++;
    if (turn != me) { await(); return; }
    if (shared) {
        (*shared_points)++;
        if (!sc.rnd && sc.at < sc.n && *shared_points >= sc.pos[sc.at]) { int t = sc.to[sc.at++]; idle = 0; give(alive(t) ? t : other(me)); return; }
    }
    if (kind == 0) shared_points[1]++;
    if (sc.rnd && kind != 2) { unsigned r = rnd64() >> 32; if ((r & 65535) < (shared ? sc.a : sc.b)) { int t = (r >> 16) % nthreads; idle = 0; give(alive(t) ? t : other(me)); return; } }
    if (++idle > 300000) { idle = 0; give(other(me)); }         // nobody waits forever
}
// ---- shared memory: accesses which conflict with one by another thread, and the variables of the library
#define TAB (1 << 20)
static uint16_t tab[TAB];    // threads which have written (low) and read (high) the word
static uintptr_t lib_lo, lib_hi;
static void access1(uintptr_t a, int wr) {
    uint16_t *e, m; int lib, sh;
    if (me < 0 || !on || (a >= stk_lo && a < stk_hi)) return;
    e = &tab[(a >> 3) * 0x9E3779B97F4A7C15ull >> 44];      // (arenas are congruent)
    m = 1 << me; lib = a >= lib_lo && a < lib_hi;
    // a write; the first read after a write by another thread; of the library's variables each access once they are written
    if (wr) { sh = lib || ((*e | *e >> 8) & 255 & ~m); *e = (*e | m) & 255; }
    else { sh = lib ? (*e & 255) != 0 : !(*e >> 8 & m) && ((*e & 255) & ~m) != 0; *e |= m << 8; }
    point(sh ? 1 : 2);
}
static int findlib(struct dl_phdr_info *i, size_t n, void *d) {
    int k; (void)n; (void)d;
    if (!strstr(i->dlpi_name, "libeccthr")) return 0;
    for (k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
        lib_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; lib_hi = lib_lo + i->dlpi_phdr[k].p_memsz; }
    return 1;
}
#define RW(n) void __tsan_read##n(void *p) { access1((uintptr_t)p, 0); } void __tsan_write##n(void *p) { access1((uintptr_t)p, 1); } \
    void __tsan_unaligned_read##n(void *p) { access1((uintptr_t)p, 0); } void __tsan_unaligned_write##n(void *p) { access1((uintptr_t)p, 1); } \
    void __tsan_volatile_read##n(void *p) { access1((uintptr_t)p, 0); } void __tsan_volatile_write##n(void *p) { access1((uintptr_t)p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) access1((uintptr_t)p, 0); }
void __tsan_write_range(void *p, unsigned long n) { if (n) access1((uintptr_t)p, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; if (me >= 0 && on) point(0); }
void __tsan_func_exit(void) {}
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int o) { (void)o; access1((uintptr_t)a, 0); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int o) { (void)o; access1((uintptr_t)a, 1); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; access1((uintptr_t)a, 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; access1((uintptr_t)a, 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { (void)o; (void)f; access1((uintptr_t)a, 1); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) { (void)o; }
// calls of the library (the generated trampolines): a point, then the function
void thr_call(void) { if (me >= 0 && on) point(0); }
// waiting for a lock: the next thread continues
#define TRY(name, T, try, busy) int __wrap_##name(T *m) { int r; if (me < 0 || !on) return name(m); \
    for (;;) { point(1); r = try(m); if (r != busy) return r; give(other(me)); } }
#define END(name, T) int __wrap_##name(T *m) { int r = name(m); if (me >= 0 && on) point(1); return r; }
TRY(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock, EBUSY)
TRY(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock, EBUSY)
TRY(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock, EBUSY)
TRY(mtx_lock, mtx_t, mtx_trylock, thrd_busy)
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { int r; if (me < 0 || !on) return pthread_spin_lock(m);
    for (;;) { point(1); r = pthread_spin_trylock(m); if (r != EBUSY) return r; give(other(me)); } }
END(pthread_mutex_unlock, pthread_mutex_t) END(pthread_rwlock_unlock, pthread_rwlock_t)
int __wrap_mtx_unlock(mtx_t *m) { int r = mtx_unlock(m); if (me >= 0 && on) point(1); return r; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { int r = pthread_spin_unlock(m); if (me >= 0 && on) point(1); return r; }
int __wrap_sched_yield(void) { if (me >= 0 && on) { point(1); give(other(me)); } return 0; }

// ---- running ---------------------------------------------------------------
static void play(int part, int logi) {
    sb_t ev = {0}; int i; log_t *l = &logs[logi];
    for (i = 0; i < nscr[part]; i++) {
        char *t = strdup(script[part][i]);
        if (step(t, 0, &ev)) { if (l->n + ev.n < LOGSZ) { memcpy(l->b + l->n, ev.b, ev.n); l->n += ev.n; } else die("log"); }
        free(t);
    }
    free(ev.b);
}
static void *body(void *arg) {
    pthread_attr_t at; void *lo; size_t sz; int t = (int)(intptr_t)arg;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stk_lo = (uintptr_t)lo; stk_hi = stk_lo + sz;
    slot_lo = t * PER; slot_hi = slot_lo + PER;
    rnd_seed(t + 1);
    free(malloc(100));           // each thread gets an arena of its own
    me = t;
    await();
    play(1 + t, 1 + t);
    done[t] = 1; t = other(me); me = -1;
    if (t >= 0 && alive(t)) { turn = t; sem_post(&wake[t]); }
    return NULL;
}
static int child(void) {
    pthread_t th[NT]; int i;
    alarm(60);
    rnd_prng(99);
    slot_lo = 0; slot_hi = NH;
    play(0, 0);
    for (i = 0; i < nthreads; i++) sem_init(&wake[i], 0, 0);
    on = 1;
    for (i = 0; i < nthreads; i++) if (pthread_create(&th[i], NULL, body, (void *)(intptr_t)i)) die("thread");
    for (i = 0; i < nthreads; i++) pthread_join(th[i], NULL);
    on = 0;
    play(NT + 1, NT + 1);
    release_all();
    return 0;
}
static uint64_t fnv(uint64_t h, const char *p, size_t n) { while (n--) h = (h ^ (unsigned char)*p++) * 1099511628211ull; return h; }

int main(int argc, char **argv) {
    FILE *in; char *line = NULL; size_t cap = 0; ssize_t l; int part = 0, i, nr = 0, tries; const char *dir = argc > 1 ? argv[1] : ".";
    uint64_t seen[4096]; int nseen = 0;
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("THR_ASLR") && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
        setenv("THR_ASLR", "0", 1); execv("/proc/self/exe", argv); }
    dl_iterate_phdr(findlib, NULL);
    if (!lib_lo) die("library not found");
    logs = mmap(NULL, (NT + 2) * sizeof(log_t) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (logs == MAP_FAILED) die("mmap");
    shared_points = (long *)(logs + NT + 2);
    {   // all of stdin at once: a child which exits must not find a stream to reposition
        size_t n = 0, z = 1 << 20, r; char *buf = malloc(z);
        while ((r = fread(buf + n, 1, z - n, stdin)) > 0) { n += r; if (n == z) buf = realloc(buf, z *= 2); }
        fclose(stdin); in = fmemopen(buf, n, "r");
    }
    while ((l = getline(&line, &cap, in)) >= 0) {
        char *t, *sp; int st = 0; uint64_t h = 14695981039346656037ull; char crash[200] = ""; int isnew = 1;
        if (line[0] != '@') { script[part] = realloc(script[part], (nscr[part] + 1) * sizeof(char *)); script[part][nscr[part]++] = strdup(line); continue; }
        if (!strncmp(line, "@setup", 6)) { part = 0; continue; }
        if (!strncmp(line, "@thread", 7)) { if (nthreads == NT) die("threads"); part = ++nthreads; continue; }
        if (!strncmp(line, "@final", 6)) { part = NT + 1; continue; }
        memset(&sc, 0, sizeof sc);
        t = strtok_r(line, " \n", &sp);
        if (!strcmp(t, "@at")) {
            turn = atoi(strtok_r(NULL, " \n", &sp));
            while ((t = strtok_r(NULL, " \n", &sp)) && sc.n < 64) { sc.pos[sc.n] = atol(t); sc.to[sc.n++] = atoi(strchr(t, ':') + 1); }
        } else { sc.rnd = 1; sc.st = strtoull(strtok_r(NULL, " \n", &sp), NULL, 10); sc.a = atoi(strtok_r(NULL, " \n", &sp)); sc.b = atoi(strtok_r(NULL, " \n", &sp)); turn = rnd64() % nthreads; }
        for (tries = 0; tries < 2; tries++) {
            pid_t p;
            for (i = 0; i < NT + 2; i++) logs[i].n = 0;
            shared_points[0] = shared_points[1] = 0;
            fflush(stdout);
            p = fork();
            if (p < 0) die("fork");
            if (p == 0) exit(child());
            waitpid(p, &st, 0);
            if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) break;
        }
        if (st != 0) snprintf(crash, sizeof crash, "{\"op\":\"CRASH\",\"a\":[\"%d\",\"threads\"],\"r\":[],\"c\":[],\"k\":[]}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
        for (i = 0; i < NT + 2; i++) h = fnv(h, logs[i].b, logs[i].n);
        h = fnv(h, crash, strlen(crash));
        for (i = 0; i < nseen; i++) if (seen[i] == h) isnew = 0;
        if (isnew && nseen < 4096) {
            char fn[4096]; FILE *f; seen[nseen++] = h;
            snprintf(fn, sizeof fn, "%s/%016llx.ndjson", dir, (unsigned long long)h);
            if (!(f = fopen(fn, "w"))) die("recording");
            for (i = 0; i < NT + 2; i++) fwrite(logs[i].b, 1, logs[i].n, f);
            fputs(crash, f); fclose(f);
        }
        printf("%d %016llx %ld %ld\n", nr++, (unsigned long long)h, shared_points[0], shared_points[1]);
    }
    return 0;
}
